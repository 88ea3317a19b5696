------------------------------ MODULE EvalSpec ------------------------------
(* Evaluation of predictions: cross entropy loss, its gradient, accuracy.    *)
(* The predictions, targets and gradient are tensors the caller owns and     *)
(* reuses; loss objects carry nothing from one call to the next.             *)
(* Probabilities are 2^-k and are represented by k (ZEROP: probability 0).   *)
EXTENDS Num

VARIABLES P,      \* predictions [sh, dom, v]; dom "prob": v is k; dom "int": v is the score itself
          Y,      \* targets     [sh, v]
          G,      \* gradient    [sh, v, s]: value * 2^s
          ev      \* outcome of the last call
evars == <<P, Y, G, ev>>

ZEROP == 200
T2(sh, v) == [sh |-> sh, v |-> v]
Rows == P.sh[1]
Cols == P.sh[2]
At(r, c) == P.v[(r - 1) * Cols + c]
Key(r, c) == IF P.dom = "prob" THEN -At(r, c) ELSE At(r, c)

\* ---- which calls are accepted
LossShape == Len(P.sh) = 2 /\ Len(Y.sh) = 2 /\ Y.sh = <<P.sh[1], 1>>
GradShape == LossShape /\ G.sh = P.sh
AccShape  == Len(P.sh) = 2 /\ Prod(Y.sh) = P.sh[1]
OneShape  == Len(P.sh) = 2 /\ Y.sh = P.sh

\* ---- what they return
TargetK(r)  == At(r, Y.v[r] + 1)
LossBits    == SumF(LAMBDA r : TargetK(r), Rows)                \* Rows * loss / ln 2
Loss16      == RDiv(LossBits * 256, Rows) * 256                 \* loss / ln 2 * 2^16, up to 256/2 (see LossTol)
GradAt(i, s) == LET r == ((i - 1) \div Cols) + 1  c == ((i - 1) % Cols) + 1
                IN IF Y.v[r] = c - 1 THEN -QDiv(Pow2(At(r, c) + s), Rows) ELSE 0
\* first position of the greatest entry of a row
ArgMax(f(_), n) == CHOOSE c \in 1..n : (\A d \in 1..n : f(d) <= f(c)) /\ (\A d \in 1..(c - 1) : f(d) < f(c))
PredCls == TLCEval([r \in 1..Rows |-> ArgMax(LAMBDA c : Key(r, c), Cols) - 1])
Hits(n, ok(_)) == Cardinality({ r \in 1..n : ok(r) })
AccHits == LET p == PredCls IN Hits(Rows, LAMBDA r : p[r] = Y.v[r])
OneHits == LET p == PredCls IN
           Hits(Rows, LAMBDA r : p[r] = ArgMax(LAMBDA c : Y.v[(r - 1) * Cols + c], Cols) - 1)

\* ---- the caller's and the library's steps
SetP(sh, dom, v) == P' = [sh |-> sh, dom |-> dom, v |-> v] /\ UNCHANGED <<Y, G>> /\ ev' = [k |-> "set"]
SetY(sh, v)      == Y' = T2(sh, v) /\ UNCHANGED <<P, G>> /\ ev' = [k |-> "set"]
SetG(sh, v)      == G' = [sh |-> sh, v |-> v, s |-> 0] /\ UNCHANGED <<P, Y>> /\ ev' = [k |-> "set"]
Refused          == ev' = [k |-> "refused"] /\ UNCHANGED <<P, Y, G>>
Fwd == IF LossShape THEN ev' = [k |-> "loss", bits |-> LossBits, n |-> Rows] /\ UNCHANGED <<P, Y, G>> ELSE Refused
Bwd(s) == IF GradShape
          THEN /\ G' = [sh |-> P.sh, s |-> s, v |-> [i \in 1..(Rows * Cols) |-> GradAt(i, s)]]
               /\ ev' = [k |-> "grad"] /\ UNCHANGED <<P, Y>>
          ELSE Refused
Acc  == IF AccShape THEN ev' = [k |-> "acc", hits |-> AccHits, n |-> Rows] /\ UNCHANGED <<P, Y, G>> ELSE Refused
OneH == IF OneShape THEN ev' = [k |-> "acc", hits |-> OneHits, n |-> Rows] /\ UNCHANGED <<P, Y, G>> ELSE Refused
Do(op) == CASE op.op = "setp" -> SetP(op.sh, op.dom, op.v)
            [] op.op = "sety" -> SetY(op.sh, op.v)
            [] op.op = "setg" -> SetG(op.sh, op.v)
            [] op.op = "fwd"  -> Fwd
            [] op.op = "bwd"  -> Bwd(op.gs)
            [] op.op = "acc"  -> Acc
            [] op.op = "oneh" -> OneH
=============================================================================
