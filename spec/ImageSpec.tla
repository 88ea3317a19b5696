----------------------------- MODULE ImageSpec ------------------------------
(* Image files and what reading them leaves in a tensor.                      *)
EXTENDS Num
VARIABLES F,      \* file name -> content: [k |-> "img", fmt, h, w, c, px] | [k |-> "bad" or "cut"] (damaged) | [k |-> "other"]
          T,      \* the tensor the caller keeps: [sh, v], sh = << >> when empty
          iout    \* outcome of the last read
imvars == <<F, T, iout>>
EmptyT == [sh |-> << >>, v |-> << >>]

\* ---- PNG samples to 8-bit channels
PngCh(ct) == CASE ct = 0 -> 1 [] ct = 2 -> 3 [] ct = 3 -> 3 [] ct = 4 -> 2 [] ct = 6 -> 4
Byte(d, v) == CASE d = 8 -> v [] d = 16 -> v \div 256 [] d = 4 -> v * 17 [] d = 2 -> v * 85 [] d = 1 -> v * 255
PngPx(ct, d, v, pal) == IF ct = 3 THEN [i \in 1..(3 * Len(v)) |-> pal[v[((i - 1) \div 3) + 1] * 3 + ((i - 1) % 3) + 1]]
                        ELSE [i \in 1..Len(v) |-> Byte(d, v[i])]
Img(fmt, h, w, c, px) == [k |-> "img", fmt |-> fmt, h |-> h, w |-> w, c |-> c, px |-> px]
Put(f, c) == [g \in (DOMAIN F) \cup {f} |-> IF g = f THEN c ELSE F[g]]

WritePng(f, h, w, ct, d, v, pal) == F' = Put(f, Img("png", h, w, PngCh(ct), PngPx(ct, d, v, pal))) /\ UNCHANGED T /\ iout' = [k |-> "none"]
WriteJpg(f, h, w, c, px) == F' = Put(f, Img("jpg", h, w, c, px)) /\ UNCHANGED T /\ iout' = [k |-> "none"]
\* flipped bits: "bad", nothing is known about the picture; a PNG cut short: "cut", it may still hold all of it
Damage(f, how) == /\ F' = IF f \notin DOMAIN F THEN Put(f, [k |-> "other"])
                          ELSE IF F[f].k = "other" THEN F
                          ELSE IF how = "trunc" /\ F[f].k # "bad" /\ F[f].fmt = "png" THEN Put(f, [F[f] EXCEPT !.k = "cut"])
                          ELSE Put(f, [k |-> "bad"])
                  /\ UNCHANGED T /\ iout' = [k |-> "none"]
Foreign(f) == F' = Put(f, [k |-> "other"]) /\ UNCHANGED T /\ iout' = [k |-> "none"]
Unlink(f)  == F' = [g \in (DOMAIN F) \ {f} |-> F[g]] /\ UNCHANGED T /\ iout' = [k |-> "none"]
Copy(f, g) == F' = Put(g, F[f]) /\ UNCHANGED T /\ iout' = [k |-> "none"]

\* ---- reading file f, taken for format fmt by its name, into a tensor of shape sh (<< >>: empty)
Readable(f, fmt) == f \in DOMAIN F /\ F[f].k = "img" /\ F[f].fmt = fmt
Damaged(f, fmt)  == f \in DOMAIN F /\ F[f].k \in {"bad", "cut"}
Fits(f, sh)      == sh = << >> \/ Prod(sh) = F[f].h * F[f].w * F[f].c
ShapeOf(f, sh)   == IF sh = << >> THEN <<F[f].h, F[f].w, F[f].c>> ELSE sh
ReadOk(f, sh) == iout' = [k |-> "image", sh |-> ShapeOf(f, sh), v |-> F[f].px]
ReadErr == iout' = [k |-> "error"]
\* into the kept tensor
ReadKept(f, fmt) ==
  /\ UNCHANGED F
  /\ IF Readable(f, fmt) /\ Fits(f, T.sh) THEN ReadOk(f, T.sh) /\ T' = [sh |-> ShapeOf(f, T.sh), v |-> F[f].px]
     ELSE ReadErr /\ T' = EmptyT
ReadInto(f, fmt, sh) ==
  /\ UNCHANGED <<F, T>>
  /\ IF Readable(f, fmt) /\ Fits(f, sh) THEN ReadOk(f, sh) ELSE ReadErr
=============================================================================
