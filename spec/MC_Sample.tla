----------------------------- MODULE MC_Sample ------------------------------
EXTENDS SampleSpec, Json
CONSTANTS MaxLen, KindSet, MaxItems, Hows
VARIABLES hist, done
vars == <<savars, hist, done>>
H(r) == hist' = Append(hist, r)
Cls(k) == CASE k = "mnist" -> {"0", "7", "9", "ten"} [] k = "cifar10" -> {"airplane", "cat", "truck", "zebra"}
            [] k = "cifar100" -> {"apple", "whale", "9"} [] OTHER -> {"setosa", "versicolor", "virginica", "rosa"}
Places == {"p1", "p2"}
Init == (\E k \in KindSet : Begin(k)) /\ hist = << >> /\ done = FALSE
Item(c, h) == [c |-> c, how |-> h]
Writes == \E t \in Places : \E n \in 0..MaxItems : \E s \in [1..n -> [c : Cls(Kind), how : Hows]] :
            /\ Write(t, s, { s[i].c : i \in { j \in 1..n : s[j].how # "blank" } })
            /\ H([op |-> "write", t |-> t, items |-> s])
Opens == \E k \in {1, 2}, t \in Places \cup {"none"} : Open(k, t) /\ H([op |-> "open", k |-> k, t |-> t])
Pulls == \E k \in DOMAIN D : \E i \in 0..(Len(D[k].rows) - 1), m \in 1..Len(D[k].rows) : \E y \in Labels(D[k].rows[m].c) \cup {0} :
            Pull(k, i, m, y) /\ H([op |-> "pull", k |-> k, i |-> i])
Go == Len(hist) < MaxLen /\ UNCHANGED done
Finish == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<savars, hist>>
Next ==
  \/ Go /\ Writes
  \/ Go /\ Opens
  \/ Go /\ Opens
  \/ Go /\ Pulls
  \/ Go /\ Pulls
  \/ Go /\ Pulls
  \/ Go /\ Pulls
  \/ Finish
Spec == Init /\ [][Next]_vars
View == <<savars, Len(hist)>>
\* reading a data set changes no file, and opening another one moves nothing in those already open
Steady == [][ /\ (sout'.k \in {"open", "refused", "item"} => Trees' = Trees)
              /\ \A k \in DOMAIN D : k \in DOMAIN D' /\ D'[k].t = D[k].t => TRUE ]_vars
\* a label once given stays
Sticky == [][\A c \in DOMAIN Lab : c \in DOMAIN Lab' /\ Lab'[c] = Lab[c]]_vars
Emit == done => PrintT("GEN " \o ToJson([kind |-> Kind, ops |-> hist]))
=============================================================================
