----------------------------- MODULE Tr_Tensor ------------------------------
EXTENDS TensorSpec, Trace

\* the alias class logged for a handle: the first handle seeing the same block
AliasOf(HH, DD, h) ==
  LET d == DD[HH[h]]
      same == { g \in Handle : HH[g] # 0 /\ DD[HH[g]].total > 0
                               /\ DD[HH[g]].buf = d.buf /\ DD[HH[g]].off = d.off }
  IN IF d.total = 0 THEN h ELSE CHOOSE g \in same : \A k \in same : g <= k

RowOK(HH, DD, BB, t) ==
  /\ HH[t.h] # 0
  /\ LET d == DD[HH[t.h]]
     IN /\ t.shape = d.shape
        /\ t.strides = Strides(d.shape)
        /\ t.total = d.total
        /\ t.empty = (d.total = 0)
        /\ t.alias = AliasOf(HH, DD, t.h)
        /\ Len(t.vals) = d.total
        /\ \A i \in 1..d.total : \/ BB[d.buf][d.off + i] = UNKNOWN
                                 \/ t.vals[i] = BB[d.buf][d.off + i]

Observed(r, HH, DD, BB, e) ==
  /\ r.err = e
  /\ r.guards = 0
  /\ { h \in Handle : HH[h] # 0 } = { r.T[i].h : i \in 1..Len(r.T) }
  /\ \A i \in 1..Len(r.T) : RowOK(HH, DD, BB, r.T[i])

TInit == l = 1 /\ H = [h \in Handle |-> 0] /\ D = << >> /\ B = << >> /\ err = 0
TBegin == /\ IsBegin
          /\ H' = [h \in Handle |-> 0] /\ D' = << >> /\ err' = 0
          /\ B' = [b \in 1..Len(Ev.ext) |-> [i \in 1..Ev.ext[b].n |-> Ev.ext[b].v0 + i - 1]]
\* print: the numbers read back from the text of the tensor and of its shape
PrintOK == Ev.op = "print" => Shown(Ev.h, Ev.r.p) /\ Ev.r.ps = Desc(Ev.h).shape
TOp == IsOp /\ Do(Ev) /\ PrintOK = TRUE /\ Observed(Ev.r, H', D', B', err')
TEnd == IsEnd /\ UNCHANGED tvars
TNext == TBegin \/ TOp \/ TEnd
TSpec == TInit /\ [][TNext]_<<tvars, l>>
=============================================================================
