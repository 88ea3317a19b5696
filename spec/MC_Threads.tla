----------------------------- MODULE MC_Threads -----------------------------
EXTENDS ThreadSpec
CONSTANT MaxCalls
VARIABLE n      \* draws begun
vars == <<thvars, n>>
Init == Begin /\ n = 0
Next == \E t \in Thread :
          \/ /\ Len(out[t]) < MaxCalls
             /\ \E o \in Own(t), d \in BOOLEAN : Call(t, o, d) /\ n' = n + (IF d THEN 1 ELSE 0)
          \/ Return(t) /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
\* every draw takes a new number of its source: none is lost, none handed out twice
Pending == Cardinality({ t \in Thread : Busy(t) /\ pc[t].draw /\ Source # "locked" })
DrawsDiffer == Draws + Pending = n
=============================================================================
