----------------------------- MODULE LayoutSpec -----------------------------
(* Layout conversion of 4-D tensors: the same logical element, another place. *)
EXTENDS Num
VARIABLE X     \* current tensor [sh, v]
\* offset (0-based) of <<a, b, c, d>> in a dense tensor of shape sh
Off(sh, a, b, c, d) == ((a * sh[2] + b) * sh[3] + c) * sh[4] + d
\* the four coordinates of offset o in shape sh
Cd(sh, o) == <<o \div (sh[2] * sh[3] * sh[4]), (o \div (sh[3] * sh[4])) % sh[2], (o \div sh[4]) % sh[3], o % sh[4]>>
ToNHWC(x) == LET s == <<x.sh[1], x.sh[3], x.sh[4], x.sh[2]>>
             IN [sh |-> s, v |-> [i \in 1..Len(x.v) |-> LET k == Cd(s, i - 1) IN x.v[1 + Off(x.sh, k[1], k[4], k[2], k[3])]]]
ToNCHW(x) == LET s == <<x.sh[1], x.sh[4], x.sh[2], x.sh[3]>>
             IN [sh |-> s, v |-> [i \in 1..Len(x.v) |-> LET k == Cd(s, i - 1) IN x.v[1 + Off(x.sh, k[1], k[3], k[4], k[2])]]]
Do(op) == CASE op.op = "set"  -> X' = [sh |-> op.sh, v |-> op.v]
            [] op.op = "nhwc" -> X' = ToNHWC(X)
            [] op.op = "nchw" -> X' = ToNCHW(X)
=============================================================================
