------------------------------ MODULE Tr_Eval -------------------------------
EXTENDS EvalSpec, Trace
\* loss: r.v is loss / ln 2 * 2^16; float32 error is relative, so the tolerance grows with the value
LossClose(r) == LET q == ev'.bits \div ev'.n  m == ev'.bits % ev'.n     \* bits / n = q + m / n
                IN Near(r.v, q * 65536 + QDiv(m * 65536, ev'.n), 2 + q \div 4)
ROK(op, r) ==
  /\ IF op.op \in {"setp", "sety", "setg"} THEN r.err = 0
     ELSE /\ r.same /\ r.guards
          /\ CASE ev'.k = "refused" -> r.err = 1 /\ r.gsame
               [] ev'.k = "loss" -> r.err = 0 /\ r.gsame /\ LossClose(r)
               [] ev'.k = "acc"  -> r.err = 0 /\ r.gsame /\ Near(r.v, QDiv(ev'.hits * 65536, ev'.n), 1)
               [] ev'.k = "grad" -> r.err = 0 /\ SeqNear(r.g, Len(G'.v), LAMBDA i : G'.v[i], 1)
TInit == /\ l = 1 /\ P = [sh |-> <<1, 1>>, dom |-> "prob", v |-> <<0>>] /\ Y = T2(<<1, 1>>, <<0>>)
         /\ G = [sh |-> <<1, 1>>, v |-> <<0>>, s |-> 0] /\ ev = [k |-> "none"]
TBegin == IsBegin /\ UNCHANGED evars
TOp == IsOp /\ Do(Ev) /\ ROK(Ev, Ev.r)
TEnd == IsEnd /\ UNCHANGED evars
TNext == TBegin \/ TOp \/ TEnd
TSpec == TInit /\ [][TNext]_<<evars, l>>
=============================================================================
