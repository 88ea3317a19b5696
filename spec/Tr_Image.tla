------------------------------ MODULE Tr_Image ------------------------------
EXTENDS ImageSpec, Trace
ShapeArg(e) == IF e.t = "reuse" THEN T.sh ELSE IF e.t \in {"alloc", "view"} THEN e.sh ELSE << >>
ErrOK(r)  == r.err = 1 /\ r.kept
ImgOK(r)  == r.err = 0 /\ r.sh = iout'.sh /\ r.v = iout'.v
TRead ==
  LET r == Ev.r
  IN /\ IsOp /\ Ev.op = "read"
     /\ r.guards /\ r.place /\ r.leak = 0
     /\ IF Damaged(Ev.f, Ev.fmt) /\ Ev.fmt # "none"
        THEN \* throws, or delivers an image that fills the tensor
             /\ UNCHANGED F
             /\ r.err \in {0, 1}
             /\ r.err = 0 => Len(r.v) = Prod(r.sh) /\ Len(r.sh) > 0
             /\ (r.err = 0 /\ F[Ev.f].k = "cut") => r.v = F[Ev.f].px /\ r.sh = ShapeOf(Ev.f, ShapeArg(Ev))
             /\ iout' = [k |-> IF r.err = 0 THEN "image" ELSE "error"]
             /\ T' = IF Ev.t # "reuse" THEN T ELSE IF r.err = 0 THEN [sh |-> r.sh, v |-> r.v] ELSE EmptyT
        ELSE /\ IF Ev.t = "reuse" THEN ReadKept(Ev.f, Ev.fmt) ELSE ReadInto(Ev.f, Ev.fmt, ShapeArg(Ev))
             /\ IF iout'.k = "image" THEN ImgOK(r) ELSE ErrOK(r)
TWrite == /\ IsOp /\ Ev.op # "read" /\ Ev.r.err = 0
          /\ CASE Ev.op = "png" -> WritePng(Ev.f, Ev.h, Ev.w, Ev.ct, Ev.d, Ev.v, Ev.pal)
               [] Ev.op = "jpg" -> WriteJpg(Ev.f, Ev.h, Ev.w, Ev.c, Ev.r.px)
               [] Ev.op \in {"trunc", "flip"} -> Damage(Ev.f, Ev.op)
               [] Ev.op \in {"text", "dir"} -> Foreign(Ev.f)
               [] Ev.op = "rm" -> Unlink(Ev.f)
               [] Ev.op = "copy" -> Copy(Ev.f, Ev.g)
TInit == l = 1 /\ F = << >> /\ T = EmptyT /\ iout = [k |-> "none"]
TBegin == IsBegin /\ F' = << >> /\ T' = EmptyT /\ iout' = [k |-> "none"]
TEnd == IsEnd /\ UNCHANGED imvars
TNext == TBegin \/ TRead \/ TWrite \/ TEnd
TSpec == TInit /\ [][TNext]_<<imvars, l>>
=============================================================================
