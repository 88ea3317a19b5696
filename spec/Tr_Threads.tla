----------------------------- MODULE Tr_Threads -----------------------------
(* Threads that were run at once and have all come back with every call of    *)
(* theirs answered.  A data race ends the process: a crash event, which is no *)
(* behaviour.  What each thread saw is decided by the specification of its    *)
(* own objects, as if it had been alone.                                      *)
EXTENDS Integers, Sequences, Trace
VARIABLE back
TInit == l = 1 /\ back = {}
TNext == \/ IsBegin /\ back' = {}
         \/ IsOp /\ Ev.t \notin back /\ Ev.r.n = Ev.calls /\ back' = back \cup {Ev.t}
         \/ IsEnd /\ UNCHANGED back
TSpec == TInit /\ [][TNext]_<<back, l>>
=============================================================================
