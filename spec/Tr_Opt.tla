------------------------------- MODULE Tr_Opt -------------------------------
EXTENDS OptSpec, Trace

SumTol == FoldLeft(LAMBDA a, k : a + O'[k].tol, 0, Idx(Len(O')))
OptOf(h) == [h EXCEPT !.ps = { h.ps[i] : i \in 1..Len(h.ps) }]
ROK(r) ==
  /\ r.err = 0 /\ r.same
  /\ \A j \in 1..Len(r.lr) : r.lr[j] = O'[j].lr
  /\ Len(r.lr) = Len(O')
  /\ { r.P[j].p : j \in 1..Len(r.P) } = DOMAIN P'
  /\ \A j \in 1..Len(r.P) :
       LET q == P'[r.P[j].p]
       IN /\ Len(r.P[j].w) = Len(q.w)
          /\ \A i \in 1..Len(q.w) : Near(r.P[j].w[i], q.w[i], SumTol)
          /\ r.P[j].t = q.t
TInit == l = 1 /\ P = << >> /\ O = << >> /\ oerr = 0
TBegin == /\ IsBegin
          /\ P' = [p \in { Ev.P[j].p : j \in 1..Len(Ev.P) } |->
                     LET q == CHOOSE q \in { Ev.P[j] : j \in 1..Len(Ev.P) } : q.p = p
                     IN [w |-> [i \in 1..Len(q.w) |-> q.w[i] * W16], g |-> [i \in 1..Len(q.w) |-> 0], t |-> q.t]]
          /\ O' = << >> /\ oerr' = 0
TMake == IsOp /\ Ev.op = "make" /\ O' = Append(O, NewOpt(OptOf(Ev.c))) /\ UNCHANGED P /\ oerr' = 0 /\ ROK(Ev.r)
TOp == IsOp /\ Ev.op # "make" /\ Do(Ev) /\ ROK(Ev.r)
TEnd == IsEnd /\ UNCHANGED ovars
TNext == TBegin \/ TMake \/ TOp \/ TEnd
TSpec == TInit /\ [][TNext]_<<ovars, l>>
=============================================================================
