----------------------------- MODULE MC_Layout ------------------------------
EXTENDS LayoutSpec, Json
CONSTANTS MaxLen, DSet
VARIABLES hist, done
vars == <<X, hist, done>>
Init == X = [sh |-> <<1, 1, 1, 1>>, v |-> <<1>>] /\ hist = << >> /\ done = FALSE
Take(op, h) == Do(op) /\ hist' = Append(hist, h)
Sets  == \E a \in DSet, b \in DSet, c \in DSet, d \in DSet :
           Take([op |-> "set", sh |-> <<a, b, c, d>>, v |-> [i \in 1..(a * b * c * d) |-> i]], [op |-> "set", sh |-> <<a, b, c, d>>])
Convs == \E k \in {"nhwc", "nchw"} : Take([op |-> k], [op |-> k])
Go == Len(hist) < MaxLen /\ UNCHANGED done
Finish == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<X, hist>>
\* one disjunct per kind of call: TLC simulation first picks the kind, then the call
Next ==
  \/ Go /\ Sets
  \/ Go /\ Convs
  \/ Go /\ Convs
  \/ Finish
Spec == Init /\ [][Next]_vars
View == <<X, Len(hist)>>
RoundTrip == ToNCHW(ToNHWC(X)) = X /\ ToNHWC(ToNCHW(X)) = X
\* a permutation of the elements: nothing lost, nothing duplicated
Perm == { X.v[i] : i \in 1..Len(X.v) } = 1..Len(X.v)
\* three conversions in one direction bring every element home when all inner dimensions are equal
Emit == done => PrintT("GEN " \o ToJson(hist))
=============================================================================
