------------------------------ MODULE MC_Life -------------------------------
(* Call histories of layer instances: which call may follow which.  Behaviours*)
(* are printed and executed on the code with concrete tensors.                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Inst, MaxLen, NData
VARIABLES st, hist, done, modal

NoSt == [set |-> FALSE, fed |-> FALSE, train |-> TRUE]
Init == st = [i \in Inst |-> NoSt] /\ hist = << >> /\ done = FALSE /\ modal \in [Inst -> BOOLEAN]
Put(i, rec, op) == st' = [st EXCEPT ![i] = rec] /\ hist' = Append(hist, op)
DoSet  == \E i \in Inst, d \in 1..NData : Put(i, [st[i] EXCEPT !.set = TRUE, !.fed = FALSE], [op |-> "setp", i |-> i, d |-> d])
DoFwd  == \E i \in Inst, d \in 1..NData : st[i].set /\ Put(i, [st[i] EXCEPT !.fed = TRUE], [op |-> "fwd", i |-> i, d |-> d])
DoBwd  == \E i \in Inst, d \in 1..NData :
             st[i].fed /\ (modal[i] => st[i].train) /\ Put(i, st[i], [op |-> "bwd", i |-> i, d |-> d])
DoMode == \E i \in Inst : modal[i] /\ st[i].set
             /\ Put(i, [st[i] EXCEPT !.train = ~st[i].train, !.fed = FALSE], [op |-> "mode", i |-> i, t |-> ~st[i].train])
Go == Len(hist) < MaxLen /\ UNCHANGED <<done, modal>>
Ready == \A i \in Inst : st[i].set
Finish == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist, modal>>
\* one disjunct per kind of call: TLC simulation first picks the kind, then the call
Next ==
  \/ Go /\ DoSet
  \/ Go /\ Ready /\ DoFwd
  \/ Go /\ Ready /\ DoFwd
  \/ Go /\ Ready /\ DoBwd
  \/ Go /\ Ready /\ DoBwd
  \/ Go /\ Ready /\ DoMode
  \/ Finish
Spec == Init /\ [][Next]_<<st, hist, done, modal>>
\* a backward pass always refers to a forward pass made with the current parameters and mode
BwdAfterFwd ==
  \A k \in 1..Len(hist) : hist[k].op = "bwd" =>
     \E j \in 1..(k - 1) : /\ hist[j].op = "fwd" /\ hist[j].i = hist[k].i
                           /\ \A m \in (j + 1)..(k - 1) : hist[m].i = hist[k].i => hist[m].op \in {"fwd", "bwd"}
Emit == done => PrintT("GEN " \o ToJson([ops |-> hist, modal |-> modal]))
=============================================================================
