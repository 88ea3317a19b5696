------------------------------ MODULE MC_Shape ------------------------------
EXTENDS ShapeSpec, Json
CONSTANTS MaxLen, Dims, Kinds, Win     \* Win: how many of the latest placeholders are offered as arguments
VARIABLES hist, done
vars == <<shvars, hist, done>>
Shapes == { <<a>> : a \in Dims } \cup { <<a, b>> : a, b \in Dims } \cup { <<a, b, a>> : a, b \in Dims }
          \cup { <<a, b, c, d>> : a \in {1, 2}, b \in Dims, c, d \in {3, 4, 5} }
Conf(k, v) == CASE k = "Linear" -> [kind |-> k, units |-> v + 1]
              [] k \in {"Convolution", "MaxPooling"} ->
                   [kind |-> k, co |-> v + 1, k |-> <<1 + v, 3 - v>>, p |-> <<v, 1 - v>>, s |-> <<1 + v, 2 - v>>]
              [] k \in {"LeakyReLU", "ELU", "Dropout"} -> [kind |-> k, a |-> 3 + v]
              [] k \in {"BatchNorm1D", "BatchNorm2D"} -> [kind |-> k, def |-> FALSE, eps |-> 1 + v, a |-> 2 + v]
              [] OTHER -> [kind |-> k]
Arity(c) == IF c.kind = "Add" THEN 2 ELSE 1
\* what the real code leaves undefined: batch norm over 1-D placeholders
Defined(c, sh) == c.kind \in {"BatchNorm1D", "BatchNorm2D"} => Len(sh) >= 2
Init == PH = <<[sh |-> <<2, 3, 4, 5>>, from |-> 0, args |-> << >>]>> /\ OB = << >> /\ shout = [k |-> "none"]
        /\ hist = << >> /\ done = FALSE
H(r) == hist' = Append(hist, r)
Inputs == \E sh \in Shapes : Input(sh) /\ H([op |-> "input", sh |-> sh])
News == \E k \in Kinds, v \in {0, 1} : New(Conf(k, v)) /\ H([op |-> "new", c |-> Conf(k, v)])
Latest == Max2(1, Len(PH) - Win + 1)..Len(PH)
ArgSets(c) == IF Arity(c) = 2 THEN { <<i, j>> : i, j \in Latest } ELSE { <<i>> : i \in Latest }
Positive(sh) == \A i \in 1..Len(sh) : sh[i] >= 1
OkOut(c, in) == Accepts(c, Ins(in)) => Positive(OutShape(c, PH[in[1]].sh))
Applies == \E o \in 1..Len(OB) : \E in \in ArgSets(OB[o].c) :
             /\ Defined(OB[o].c, PH[in[1]].sh) /\ OkOut(OB[o].c, in)
             /\ Apply(o, in) /\ H([op |-> "apply", o |-> o, in |-> in])
Makes == \E k \in Kinds, v \in {0, 1} : \E in \in ArgSets(Conf(k, v)) :
             /\ Defined(Conf(k, v), PH[in[1]].sh) /\ OkOut(Conf(k, v), in)
             /\ Make(Conf(k, v), in, TRUE) /\ H([op |-> "make", c |-> Conf(k, v), in |-> in])
Go == Len(hist) < MaxLen /\ UNCHANGED done
Finish == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<shvars, hist>>
\* one disjunct per kind of call: TLC simulation first picks the kind, then the call
Next ==
  \/ Go /\ Inputs
  \/ Go /\ News
  \/ Go /\ Applies
  \/ Go /\ Applies
  \/ Go /\ Makes
  \/ Finish
Spec == Init /\ [][Next]_vars
View == <<shvars, Len(hist)>>
\* the batch dimension passes through; expressions are acyclic; a refused call leaves nothing behind
Batch == \A i \in 1..Len(PH) : PH[i].from # 0 => PH[i].sh[1] = PH[PH[i].args[1]].sh[1]
Acyclic == \A i \in 1..Len(PH) : \A j \in 1..Len(PH[i].args) : PH[i].args[j] < i
AllPos == \A i \in 1..Len(PH) : Positive(PH[i].sh)
ParamsOnce == [][\A o \in 1..Len(OB) : OB[o].made => OB'[o].P = OB[o].P /\ OB'[o].B = OB[o].B]_vars
RefusedFrame == [][shout'.k = "refused" => PH' = PH /\ OB' = OB]_vars
Emit == done => PrintT("GEN " \o ToJson(hist))
=============================================================================
