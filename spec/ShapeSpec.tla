----------------------------- MODULE ShapeSpec ------------------------------
(* Building expressions: layer objects (configurations) applied to            *)
(* placeholders.  Applying one infers the output shape, records the arguments *)
(* and, the first time, creates the layer's parameters and buffers.           *)
EXTENDS ShapeMath
VARIABLES PH,     \* placeholders: [sh, from, args]; from = 0 for inputs
          OB,     \* layer objects: [c, made, P, B]
          shout   \* outcome of the last call
shvars == <<PH, OB, shout>>

Input(sh) == PH' = Append(PH, [sh |-> sh, from |-> 0, args |-> << >>]) /\ UNCHANGED OB /\ shout' = [k |-> "input"]
New(c)    == OB' = Append(OB, [c |-> c, made |-> FALSE, P |-> {}, B |-> {}]) /\ UNCHANGED PH /\ shout' = [k |-> "new"]
Ins(in) == [i \in 1..Len(in) |-> PH[in[i]].sh]
Made(o, sh) == IF o.made THEN o ELSE [o EXCEPT !.made = TRUE, !.P = Params(o.c, sh), !.B = Buffers(o.c, sh)]
Apply(o, in) ==
  IF Accepts(OB[o].c, Ins(in))
  THEN /\ OB' = [OB EXCEPT ![o] = Made(@, PH[in[1]].sh)]
       /\ PH' = Append(PH, [sh |-> OutShape(OB[o].c, PH[in[1]].sh), from |-> o, args |-> in])
       /\ shout' = [k |-> "out", o |-> o]
  ELSE UNCHANGED <<PH, OB>> /\ shout' = [k |-> "refused"]
\* make_layer(type, name, attributes, inputs): a new object, applied at once
Make(c, in, complete) ==
  IF complete /\ Accepts(c, Ins(in))
  THEN /\ OB' = Append(OB, Made([c |-> c, made |-> FALSE, P |-> {}, B |-> {}], PH[in[1]].sh))
       /\ PH' = Append(PH, [sh |-> OutShape(c, PH[in[1]].sh), from |-> Len(OB) + 1, args |-> in])
       /\ shout' = [k |-> "out", o |-> Len(OB) + 1]
  ELSE UNCHANGED <<PH, OB>> /\ shout' = [k |-> "refused"]
=============================================================================
