----------------------------- MODULE LoaderSpec -----------------------------
(* Data loaders over a data set: batches, epochs, refused and failed pulls.   *)
EXTENDS Num

VARIABLES L,       \* loader -> [n, b, sh, pos]
          lout     \* outcome of the last call
ldvars == <<L, lout>>

NewLoader(n, b, sh) == [n |-> n, b |-> b, sh |-> sh, pos |-> 0]
HasBatch(x) == x.pos + x.b <= x.n
\* index sequences a pull may read
SeqBatch(x) == [i \in 1..x.b |-> x.pos + i - 1]
IsShuffled(x, idx) == /\ Len(idx) = x.b
                      /\ \A i \in 1..x.b : idx[i] \in 0..(x.n - 1)
                      /\ \A i, j \in 1..x.b : i # j => idx[i] # idx[j]
IsBatch(x, idx) == IF x.sh THEN IsShuffled(x, idx) ELSE idx = SeqBatch(x)

\* tensors of a wrong shape: refused before anything is read, position kept
Refuse(k) == lout' = [k |-> "refused"] /\ UNCHANGED L
\* no full batch left: the epoch ends, the next pull starts over
EpochEnd(k) == /\ ~HasBatch(L[k])
               /\ L' = [L EXCEPT ![k].pos = 0] /\ lout' = [k |-> "end"]
Batch(k, idx) == /\ HasBatch(L[k]) /\ IsBatch(L[k], idx) = TRUE
                 /\ L' = [L EXCEPT ![k].pos = @ + L[k].b] /\ lout' = [k |-> "batch", idx |-> idx]
\* the data set failed on item f of the batch: position kept, a later pull retries
Fail(k, idx, f) == /\ HasBatch(L[k]) /\ f \in 1..L[k].b /\ Len(idx) = f
                   /\ IF L[k].sh THEN \A i \in 1..f : idx[i] \in 0..(L[k].n - 1)
                      ELSE idx = SubSeq(SeqBatch(L[k]), 1, f)
                   /\ lout' = [k |-> "failed"] /\ UNCHANGED L
PosInRange == \A k \in DOMAIN L : L[k].pos >= 0 /\ L[k].pos % L[k].b = 0 /\ L[k].pos <= L[k].n
=============================================================================
