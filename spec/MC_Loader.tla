----------------------------- MODULE MC_Loader ------------------------------
EXTENDS LoaderSpec, Json
CONSTANTS MaxLen, NSet, BSet, Shuf
VARIABLES hist, done, seen     \* seen[k]: indices delivered in the current epoch

Init == /\ \E n1 \in NSet, b1 \in BSet, n2 \in NSet, b2 \in BSet, s1 \in Shuf, s2 \in Shuf :
             L = <<NewLoader(n1, b1, s1), NewLoader(n2, b2, s2)>>
        /\ lout = [k |-> "none"] /\ hist = << >> /\ done = FALSE /\ seen = <<<< >>, << >>>>
H(rec) == hist' = Append(hist, rec)
SomeBatches(x) == IF ~x.sh THEN {SeqBatch(x)}
                  ELSE { q \in [1..x.b -> 0..(x.n - 1)] : IsShuffled(x, q) }
T == {"empty", "ok", "keep"}
Pulls == \E k \in 1..2, t \in T :
           /\ H([op |-> "pull", k |-> k, t |-> t, f |-> 0])
           /\ \/ EpochEnd(k) /\ seen' = [seen EXCEPT ![k] = << >>]
              \/ HasBatch(L[k]) /\ \E idx \in SomeBatches(L[k]) : Batch(k, idx) /\ seen' = [seen EXCEPT ![k] = @ \o idx]
Bads  == \E k \in 1..2, t \in {"badx", "bady", "badboth"} :
           H([op |-> "pull", k |-> k, t |-> t, f |-> 0]) /\ Refuse(k) /\ UNCHANGED seen
Fails == \E k \in 1..2 : \E f \in 1..L[k].b :
           /\ HasBatch(L[k])
           /\ H([op |-> "pull", k |-> k, t |-> "ok", f |-> f])
           /\ Fail(k, [i \in 1..f |-> L[k].pos + i - 1], f) /\ UNCHANGED seen
Go == Len(hist) < MaxLen /\ UNCHANGED done
Finish == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<ldvars, hist, seen>>
\* one disjunct per kind of call: TLC simulation first picks the kind, then the call
Next ==
  \/ Go /\ Pulls
  \/ Go /\ Pulls
  \/ Go /\ Bads
  \/ Go /\ Fails
  \/ Finish
Spec == Init /\ [][Next]_<<ldvars, hist, done, seen>>
View == <<ldvars, Len(hist), seen>>
\* in order, each item at most once per epoch
SeqEpoch == \A k \in 1..2 : ~L[k].sh => seen[k] = [i \in 1..L[k].pos |-> i - 1]
\* an epoch ends only when fewer than a batch of items is left
FullEpoch == [][\A k \in 1..2 : (L[k].pos > 0 /\ L'[k].pos = 0) => L[k].pos + L[k].b > L[k].n]_<<ldvars, hist, done, seen>>
Emit == done => PrintT("GEN " \o ToJson([hdr |-> [k \in 1..2 |-> [n |-> L[k].n, b |-> L[k].b, sh |-> L[k].sh]], ops |-> hist]))
=============================================================================
