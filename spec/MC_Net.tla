------------------------------ MODULE MC_Net --------------------------------
(* All small graphs, with data: forward does not depend on the order in which *)
(* the calls are taken, backward is the derivative of forward, linear in the  *)
(* output gradients, whatever the sharing of intermediate results.            *)
EXTENDS ModelSpec
CONSTANTS MaxCalls, NetKinds, MaxOuts
VARIABLES phase, base, nudge
vars == <<mvars, phase, base, nudge>>
Sh == <<2, 2>>
X == <<3, -1, -2, 1>>
Wt(j) == CASE (j % 3) = 0 -> <<1, 0, -1, 2>> [] (j % 3) = 1 -> <<0, 1, 1, 1>> [] OTHER -> <<2, -1, 0, -1>>
Bs(j) == IF (j % 2) = 0 THEN <<1, -2>> ELSE <<0, 3>>
Gr(j) == CASE (j % 3) = 0 -> <<1, -1, 2, 0>> [] (j % 3) = 1 -> <<0, 2, 1, -3>> [] OTHER -> <<1, 1, 0, 5>>
Init == /\ PH = <<[sh |-> Sh, from |-> 0]>> /\ CL = << >> /\ OB = << >> /\ MD = << >> /\ FS = NoFn /\ US = 0
        /\ mout = [k |-> "none"] /\ phase = "grow" /\ base = << >> /\ nudge = << >>
T(sh, v) == [sh |-> sh, v |-> v, g |-> [i \in 1..Len(v) |-> 0]]
Obj(kind) == LET j == Len(OB)
             IN CASE kind = "Linear" -> [c |-> [kind |-> "Linear", units |-> 2], name |-> "l" \o ToString(j), t |-> TRUE, B |-> NoFn,
                                         P |-> [weight |-> T(<<2, 2>>, Wt(j)), bias |-> T(<<2>>, Bs(j))]]
                  [] OTHER -> [c |-> [kind |-> kind], name |-> "l" \o ToString(j), t |-> TRUE, B |-> NoFn, P |-> NoFn]
Args(kind) == IF kind = "Add" THEN { <<p, q>> : p \in 1..Len(PH), q \in 1..Len(PH) } ELSE { <<p>> : p \in 1..Len(PH) }
Grow == /\ phase = "grow" /\ Len(CL) < MaxCalls
        /\ \E kind \in NetKinds : \E in \in Args(kind) :
             /\ OB' = Append(OB, Obj(kind))
             /\ CL' = Append(CL, [o |-> Len(OB) + 1, in |-> in, out |-> Len(PH) + 1])
             /\ PH' = Append(PH, [sh |-> Sh, from |-> Len(CL) + 1])
        /\ UNCHANGED <<MD, FS, US, mout, phase, base, nudge>>
Orders(S) == { s \in [1..Cardinality(S) -> S] : IsOrder(s, S) }
OutSets == { S \in SUBSET (2..Len(PH)) : S # {} /\ Cardinality(S) <= MaxOuts }
Mod(outs, ord) == [ins |-> <<1>>, outs |-> outs, ord |-> ord, comp |-> TRUE, fed |-> TRUE, env |-> NoFn]
Grads(n) == [i \in 1..n |-> Gr(i)]
\* the model twice: with the calls as they were made, and in any other order
Run == /\ phase = "grow" /\ Len(CL) > 0
       /\ \E S \in OutSets : \E outs \in {SetToSortSeq(S, LAMBDA a, b : a < b)} :
          \E calls \in {CallsOf(outs)} : \E ord \in Orders(calls) :
             LET m0 == Mod(outs, SetToSortSeq(calls, LAMBDA a, b : a < b))  m1 == Mod(outs, ord)
             IN MD' = <<m0, m1>>
       /\ phase' = "built" /\ UNCHANGED <<PH, CL, OB, FS, US, mout, base, nudge>>
Outs(m) == LET e == FwdEnv(m, <<X>>, NoFn) IN TLCEval([i \in 1..Len(MD[m].outs) |-> e[MD[m].outs[i]]])
Fed == /\ phase = "built"
       /\ MD' = [m \in 1..2 |-> [MD[m] EXCEPT !.env = FwdEnv(m, <<X>>, NoFn)]]
       /\ phase' = "fed" /\ UNCHANGED <<PH, CL, OB, FS, US, mout, base, nudge>>
Bwds == /\ phase = "fed"
        /\ base' = [y |-> Outs(1), D |-> BwdAll(1, Grads(Len(MD[1].outs))).D, D2 |-> BwdAll(2, Grads(Len(MD[1].outs))).D]
        /\ phase' = "run" /\ UNCHANGED <<PH, CL, OB, MD, FS, US, mout, nudge>>
Nudges == /\ phase = "run" /\ MD[1].ord = MD[2].ord
          /\ \E o \in Objects(1) : \E n \in DOMAIN OB[o].P : \E i \in 1..Len(OB[o].P[n].v) :
                /\ OB' = [OB EXCEPT ![o].P[n].v[i] = @ + 1] /\ nudge' = <<o, n, i>>
          /\ phase' = "nudged" /\ UNCHANGED <<PH, CL, MD, FS, US, mout, base>>
Next == Grow \/ Run \/ Fed \/ Bwds \/ Nudges
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
AnyOrder == phase = "run" => Outs(1) = Outs(2) /\ base.D = base.D2
Dot(a, b) == FoldLeft(LAMBDA s, i : s + a[i] * b[i], 0, Idx(Len(a)))
\* exact where forward is affine in each single weight: graphs of linear layers and additions
IsDerivative ==
  phase = "nudged" => LET y == Outs(1)  n == Len(y)
                      IN FoldLeft(LAMBDA s, i : s + Dot(Gr(i), [k \in 1..Len(y[i]) |-> y[i][k] - base.y[i][k]]), 0, Idx(n))
                         = base.D[nudge[1]][nudge[2]][nudge[3]]
\* output gradients act independently and add up
Only(j, n) == [i \in 1..n |-> IF i = j THEN Gr(i) ELSE Zero(2)]
Linear2 == phase = "run" =>
  LET n == Len(MD[1].outs)
  IN n = 2 => LET A == BwdAll(1, Only(1, 2)).D  B == BwdAll(1, Only(2, 2)).D
              IN \A o \in DOMAIN base.D : \A p \in DOMAIN base.D[o] :
                    base.D[o][p] = [i \in 1..Len(base.D[o][p]) |-> A[o][p][i] + B[o][p][i]]
=============================================================================
