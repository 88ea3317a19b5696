------------------------------ MODULE Tr_Text -------------------------------
(* The text of an exception names where it was raised and contains every      *)
(* piece streamed into it, in order; asking for it again gives the same text. *)
EXTENDS Integers, Sequences, Trace
VARIABLE n
InOrder(pos, k) == \A i \in 1..k : pos[i] >= 0 /\ (i > 1 => pos[i] >= pos[i - 1])
TextOK == /\ Ev.r.err = 1 /\ Ev.r.same
          /\ Len(Ev.r.pos) = Len(Ev.parts) + 3
          /\ InOrder(Ev.r.pos, Len(Ev.parts))
          /\ \A i \in 1..Len(Ev.r.pos) : Ev.r.pos[i] >= 0
TInit == l = 1 /\ n = 0
TNext == \/ IsBegin /\ n' = 0
         \/ IsOp /\ TextOK = TRUE /\ n' = n + 1
         \/ IsEnd /\ UNCHANGED n
TSpec == TInit /\ [][TNext]_<<n, l>>
=============================================================================
