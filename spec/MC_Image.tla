------------------------------ MODULE MC_Image ------------------------------
EXTENDS ImageSpec, Json
CONSTANTS MaxLen, Names, Sizes
VARIABLES hist, done
vars == <<imvars, hist, done>>
\* the last suffix decides
Fmt(f) == IF f \in {"a.png", "b.png", "h.jpg.png"} THEN "png" ELSE IF f \in {"c.jpg", "d.jpeg", "g.png.jpg", "j.v2.jpeg"} THEN "jpg" ELSE "none"
Init == F = << >> /\ T = EmptyT /\ iout = [k |-> "none"] /\ hist = << >> /\ done = FALSE
H(r) == hist' = Append(hist, r)
Px(n) == [i \in 1..n |-> (i * 37) % 256]
Pngs == \E f \in Names, h \in Sizes, w \in Sizes, ct \in {0, 2, 3, 4, 6} :
          /\ WritePng(f, h, w, ct, IF ct = 3 THEN 1 ELSE 8, IF ct = 3 THEN [i \in 1..(h * w) |-> i % 2] ELSE Px(h * w * PngCh(ct)), <<1, 2, 3, 4, 5, 6>>)
          /\ H([op |-> "png", f |-> f, h |-> h, w |-> w, ct |-> ct])
Jpgs == \E f \in Names, h \in Sizes, w \in Sizes, c \in {1, 3} :
          WriteJpg(f, h, w, c, Px(h * w * c)) /\ H([op |-> "jpg", f |-> f, h |-> h, w |-> w, c |-> c])
Hurt == \E f \in DOMAIN F, k \in {"trunc", "flip"} : Damage(f, k) /\ H([op |-> k, f |-> f])
Text == \E f \in Names : Foreign(f) /\ H([op |-> "text", f |-> f])
Rms  == \E f \in DOMAIN F : Unlink(f) /\ H([op |-> "rm", f |-> f])
Cps  == \E f \in DOMAIN F, g \in Names : f # g /\ Copy(f, g) /\ H([op |-> "copy", f |-> f, g |-> g])
ReadKeeps == \E f \in Names : (f \in DOMAIN F => F[f].k \notin {"bad", "cut"}) /\ ReadKept(f, Fmt(f)) /\ H([op |-> "read", f |-> f, t |-> "reuse"])
ReadNews  == \E f \in Names, t \in {"ret", "empty", "alloc", "view", "badalloc"} :
               /\ (f \in DOMAIN F => F[f].k \notin {"bad", "cut"})
               /\ ReadInto(f, Fmt(f), IF t = "badalloc" THEN <<1, 1, 7, 11, 13>> ELSE << >>)
               /\ H([op |-> "read", f |-> f, t |-> t])
\* a damaged file: any outcome but a crash (see Tr_Image)
ReadBad == \E f \in DOMAIN F, t \in {"ret", "empty", "alloc", "view", "reuse"} :
             /\ F[f].k \in {"bad", "cut"} /\ UNCHANGED F /\ T' = (IF t = "reuse" THEN EmptyT ELSE T) /\ iout' = [k |-> "error"]
             /\ H([op |-> "read", f |-> f, t |-> t])
Go == Len(hist) < MaxLen /\ UNCHANGED done
Finish == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<imvars, hist>>
\* one disjunct per kind of call: TLC simulation first picks the kind, then the call
Next ==
  \/ Go /\ Pngs
  \/ Go /\ Jpgs
  \/ Go /\ Hurt
  \/ Go /\ Text
  \/ Go /\ Rms
  \/ Go /\ Cps
  \/ Go /\ ReadKeeps
  \/ Go /\ ReadNews
  \/ Go /\ ReadNews
  \/ Go /\ ReadKeeps
  \/ Go /\ ReadBad
  \/ Finish
Spec == Init /\ [][Next]_vars
View == <<imvars, Len(hist)>>
Bytes == \A f \in DOMAIN F : F[f].k = "img" => Len(F[f].px) = F[f].h * F[f].w * F[f].c /\ \A i \in 1..Len(F[f].px) : F[f].px[i] \in 0..255
Dense == Len(T.v) = (IF T.sh = << >> THEN 0 ELSE Prod(T.sh)) /\ (iout.k = "image" => Len(iout.v) = Prod(iout.sh))
\* reading changes no file; a refused read delivers nothing
ReadFrame == [][(iout'.k \in {"image", "error"} /\ hist' # hist) => F' = F]_vars
Emit == done => PrintT("GEN " \o ToJson(hist))
=============================================================================
