------------------------------ MODULE MC_Eval -------------------------------
EXTENDS EvalSpec, Json
CONSTANTS MaxLen, NSet, CSet, KSet, Full   \* Full: enumerate the data (design check); else shapes only (generator)
VARIABLES hist, done
vars == <<evars, hist, done>>
Fill(n, S) == IF Full THEN [1..n -> S] ELSE {[i \in 1..n |-> CHOOSE k \in S : TRUE]}
Init == /\ P = [sh |-> <<1, 1>>, dom |-> "prob", v |-> <<0>>] /\ Y = T2(<<1, 1>>, <<0>>)
        /\ G = [sh |-> <<1, 1>>, v |-> <<7>>, s |-> 0] /\ ev = [k |-> "none"] /\ hist = << >> /\ done = FALSE
H(rec) == hist' = Append(hist, rec)
Sh2 == { <<n, c>> : n \in NSet, c \in CSet }
SetPs == \E sh \in Sh2 : \E v \in Fill(sh[1] * sh[2], KSet) :
           Do([op |-> "setp", sh |-> sh, dom |-> "prob", v |-> v]) /\ H([op |-> "setp", sh |-> sh])
SetYs == \E n \in NSet, w \in {"col", "row", "flat", "two"} :
           LET sh == CASE w = "col" -> <<n, 1>> [] w = "row" -> <<1, n>> [] w = "flat" -> <<n>> [] w = "two" -> <<n, 2>>
               m  == Prod(sh)
           IN \E v \in (IF Full THEN [1..m -> {0, 1}] ELSE {[i \in 1..m |-> 0]}) :
                Do([op |-> "sety", sh |-> sh, v |-> v]) /\ H([op |-> "sety", sh |-> sh])
\* the pair a loop over batches sets: matching predictions, labels and gradient
SetAll == \E sh \in Sh2 : \E v \in Fill(sh[1] * sh[2], KSet) :
            \E y \in (IF Full THEN [1..sh[1] -> 0..(sh[2] - 1)] ELSE {[i \in 1..sh[1] |-> 0]}) :
              /\ P' = [sh |-> sh, dom |-> "prob", v |-> v] /\ Y' = T2(<<sh[1], 1>>, y)
              /\ G' = [sh |-> sh, v |-> [i \in 1..(sh[1] * sh[2]) |-> 7], s |-> 0] /\ ev' = [k |-> "set"]
              /\ H([op |-> "setall", sh |-> sh])
SetHot == \E sh \in Sh2 : Do([op |-> "sety", sh |-> sh, v |-> [i \in 1..Prod(sh) |-> (i % 2)]]) /\ H([op |-> "sety", sh |-> sh])
SetGs  == \E sh \in Sh2 : Do([op |-> "setg", sh |-> sh, v |-> [i \in 1..Prod(sh) |-> 7]]) /\ H([op |-> "setg", sh |-> sh])
InRange == Len(P.sh) = 2 => \A r \in 1..Min2(Len(Y.v), Rows) : Y.v[r] \in 0..(Cols - 1)
LossDefined == LossShape => (InRange /\ \A r \in 1..Rows : TargetK(r) # ZEROP)
Fwds == \E i \in 1..2 : LossDefined /\ Do([op |-> "fwd"]) /\ H([op |-> "fwd", i |-> i])
Bwds == \E i \in 1..2 : LossDefined /\ Do([op |-> "bwd", gs |-> 4]) /\ H([op |-> "bwd", i |-> i])
Accs == Do([op |-> "acc"]) /\ H([op |-> "acc"])
Ones == Do([op |-> "oneh"]) /\ H([op |-> "oneh"])
Go == Len(hist) < MaxLen /\ UNCHANGED done
Finish == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<evars, hist>>
\* one disjunct per kind of call: TLC simulation first picks the kind, then the call
Next ==
  \/ Go /\ SetAll
  \/ Go /\ SetPs
  \/ Go /\ SetYs
  \/ Go /\ SetHot
  \/ Go /\ SetGs
  \/ Go /\ Fwds
  \/ Go /\ Bwds
  \/ Go /\ Accs
  \/ Go /\ Ones
  \/ Go /\ SetAll
  \/ Finish
Spec == Init /\ [][Next]_vars
View == <<evars, Len(hist)>>

\* ---- what the formulas must satisfy
LossNonNeg == ev.k = "loss" => ev.bits >= 0 /\ (ev.bits = 0 <=> \A r \in 1..Rows : TargetK(r) = 0)
\* the gradient is the derivative of the loss: <g, p> = -1, and non-target entries have no influence
P10(k) == IF k = ZEROP THEN 0 ELSE Pow2(8 - k)
GradIsDerivative == ev.k = "grad" =>
   /\ Abs(SumF(LAMBDA i : G.v[i] * P10(P.v[i]), Rows * Cols) + 4096) <= Rows * Cols * 128
   /\ \A i \in 1..(Rows * Cols) : G.v[i] <= 0
   /\ Cardinality({ i \in 1..(Rows * Cols) : G.v[i] # 0 }) = Rows
\* accuracy is a fraction of the rows, and agrees with its one-hot form
AccRange == ev.k = "acc" => ev.hits \in 0..ev.n
OneHotOf(y, n, c) == [i \in 1..(n * c) |-> IF y[((i - 1) \div c) + 1] = (i - 1) % c THEN 1 ELSE 0]
AccAgrees == (LossShape /\ InRange) =>
   LET p == PredCls  oh == OneHotOf(Y.v, Rows, Cols) IN
     AccHits = Hits(Rows, LAMBDA r : p[r] = ArgMax(LAMBDA c : oh[(r - 1) * Cols + c], Cols) - 1)
\* evaluation never changes what it is given; a refused call changes nothing at all
Frame == [][ /\ ev'.k \in {"loss", "acc", "grad", "refused"} => P' = P /\ Y' = Y
             /\ ev'.k \in {"loss", "acc", "refused"} => G' = G ]_vars
Emit == done => PrintT("GEN " \o ToJson(hist))
=============================================================================
