------------------------------ MODULE Tr_Layer ------------------------------
(* Recorded executions of layer instances against LayerSpec.                  *)
EXTENDS LayerSpec, Trace

\* statistical acceptance of a dropout mask (n >= 2000): rate and independence
Count(P(_), n) == FoldLeft(LAMBDA a, i : IF P(i) THEN a + 1 ELSE a, 0, Idx(n))
RateOK(c, kept, n) ==           \* c.pn / 16 is the drop probability
  LET k == Cardinality(kept) * 16 - n * (16 - c.pn)
  IN n < 2000 \/ Abs(k) <= 16 * 5 * (Isqrt(n) + 1)
LagOK(c, y, n, lag) ==
  LET m == n - lag
      q == Count(LAMBDA i : (y[i] # 0) = (y[i + lag] # 0), m)
      e == c.pn * c.pn + (16 - c.pn) * (16 - c.pn)
  IN n < 2000 \/ Abs(q * 256 - m * e) <= 256 * 8 * (Isqrt(n) + 1)
MaskOK(s, op, r, kept) ==
  s.c.kind = "Dropout" /\ s.train =>
     LET n == Size(op.sh)
     IN /\ RateOK(s.c, kept, n)
        /\ \A lag \in {1, 2, 4, op.sh[Len(op.sh)]} : LagOK(s.c, r.y, n, lag)
        /\ (n >= 200 /\ s.c.pn > 0 /\ s.steps > 0) => kept # s.aux    \* a fresh mask per pass

KeptOf(s, op, r) == IF s.c.kind = "Dropout" /\ r.err = 0 THEN { i \in 1..Len(r.y) : r.y[i] # 0 } ELSE {}

\* relative accuracy of exponentials however small: lg is log2 of an output in 1/256, x counts quarters of ln 2
LogOK(s, op, r) ==
  CASE s.c.kind = "Sigmoid" ->
         \A i \in 1..Len(op.x) : (op.x[i] <= -48 /\ op.x[i] >= -440) => Near(r.lg[i], 64 * op.x[i], 2)
    [] s.c.kind = "Softmax" ->
         LET C == op.sh[2]
             m == TLCEval([n \in 1..op.sh[1] |-> CHOOSE j \in 1..C : \A k \in 1..C : op.x[(n - 1) * C + k] <= op.x[(n - 1) * C + j]])
         IN \A n \in 1..op.sh[1] : \A j \in 1..C :
              LET a == (n - 1) * C + j  b == (n - 1) * C + m[n]
              IN op.x[b] - op.x[a] <= 440 => /\ IsNum(r.lg[a]) /\ IsNum(r.lg[b])
                                             /\ Near(r.lg[a] - r.lg[b], 64 * (op.x[a] - op.x[b]), 3)
    [] OTHER -> TRUE
StatTol(s) == 3 + 2 * s.steps
FwdOK(o, op, r, i) ==
  /\ r.err = 0 /\ r.same
  /\ r.osh = OutShape(o.s.c, op.sh)
  /\ op.al => op.x2 = op.x
  /\ Len(r.y) = Len(o.y)
  /\ \A j \in 1..Len(o.y) : Near(r.y[j], o.y[j], FwdTol(o.s, op, o.y, j))
  /\ LogOK(o.s, op, r)
  /\ IsBN(o.s) =>
       /\ o.s.train => o.s.c.eps >= 0 /\ S'[i].aux.ok
       /\ Len(r.rm) = Len(S'[i].rm) /\ Len(r.rv) = Len(S'[i].rv)
       /\ \A c \in 1..Len(r.rm) : Near(r.rm[c], S'[i].rm[c], IF o.s.train THEN StatTol(S'[i]) ELSE 0 + 3 + 2 * o.s.steps)
                               /\ Near(r.rv[c], S'[i].rv[c], IF o.s.train THEN StatTol(S'[i]) ELSE 0 + 3 + 2 * o.s.steps)
Acc(r, d, g0, u, tol(_)) == Len(r) = Len(d) /\ \A j \in 1..Len(d) : Near(r[j], d[j] + g0[j] * u, tol(j))
BwdOKr(o, op, r) ==
  /\ r.err = 0 /\ r.same
  /\ Acc(r.dx, o.dx, op.gi, GradUnit(o.s), LAMBDA j : DXTol(o.s, op.g, j))
  /\ o.s.c.kind = "Add" => Acc(r.dx2, o.dx, op.gi2, 1, LAMBDA j : 0)
  /\ Len(r.dw) = Len(o.dw) /\ Len(r.db) = Len(o.db)
  /\ \A j \in 1..Len(o.dw) : Near(r.dw[j], o.dw[j], IF IsBN(o.s) THEN 4 ELSE 0)
  /\ \A j \in 1..Len(o.db) : Near(r.db[j], o.db[j], 0)

TInit == l = 1 /\ S = << >> /\ out = NoRes
TBegin == IsBegin /\ S' = [i \in 1..Len(Ev.inst) |-> Fresh(Ev.inst[i])] /\ out' = NoRes
TFwd == /\ IsOp /\ Ev.op = "fwd"
        /\ Ev.r.err = 0
        /\ LET kept == KeptOf(S[Ev.i], Ev, Ev.r)
           IN /\ MaskOK(S[Ev.i], Ev, Ev.r, kept)
              /\ Fwd(Ev.i, Ev, kept) /\ FwdOK(out', Ev, Ev.r, Ev.i)
TBwd == IsOp /\ Ev.op = "bwd" /\ Bwd(Ev.i, Ev) /\ BwdOKr(out', Ev, Ev.r)
TSet == IsOp /\ \/ Ev.op = "setp" /\ SetP(Ev.i, Ev) /\ Ev.r.err = 0
                \/ Ev.op = "setb" /\ SetB(Ev.i, Ev) /\ Ev.r.err = 0
                \/ Ev.op = "mode" /\ Mode(Ev.i, Ev) /\ Ev.r.err = 0
\* a call the layer must refuse; nothing changes
TRej == IsOp /\ Ev.op = "rej" /\ Ev.r.err = 1 /\ UNCHANGED lvars
TEnd == IsEnd /\ UNCHANGED lvars
TNext == TBegin \/ TFwd \/ TBwd \/ TSet \/ TRej \/ TEnd
TSpec == TInit /\ [][TNext]_<<lvars, l>>
=============================================================================
