----------------------------- MODULE ShapeMath ------------------------------
(* What applying a layer means for shapes, parameters, buffers, attributes.   *)
EXTENDS LayerMath

\* ranks each layer type accepts when it is applied
RankOK(c, sh) == CASE c.kind = "Linear" -> Len(sh) # 1
                   [] c.kind \in {"Convolution", "MaxPooling", "GlobalAvgPooling", "BatchNorm2D"} -> Len(sh) = 4
                   [] OTHER -> TRUE
\* a window must fit in the padded input
KernelFits(c, sh) == c.k[1] <= sh[3] + 2 * c.p[1] /\ c.k[2] <= sh[4] + 2 * c.p[2]
Accepts(c, ins) == IF c.kind = "Add" THEN ins[1] = ins[2]
                   ELSE IF c.kind \in {"Convolution", "MaxPooling"} /\ Len(ins[1]) = 4 THEN KernelFits(c, ins[1])
                   ELSE RankOK(c, ins[1])
OutShape(c, sh) ==
  CASE c.kind = "Linear" -> <<sh[1], c.units>>
    [] c.kind = "Convolution" -> <<sh[1], c.co, OutDim(sh[3], c.k[1], c.p[1], c.s[1]), OutDim(sh[4], c.k[2], c.p[2], c.s[2])>>
    [] c.kind = "MaxPooling"  -> <<sh[1], sh[2], OutDim(sh[3], c.k[1], c.p[1], c.s[1]), OutDim(sh[4], c.k[2], c.p[2], c.s[2])>>
    [] c.kind = "GlobalAvgPooling" -> <<sh[1], sh[2], 1, 1>>
    [] OTHER -> sh
\* parameters: name, shape, how they start out
Pm(n, sh, i) == [n |-> n, sh |-> sh, i |-> i]
Params(c, sh) ==
  CASE c.kind = "Linear" -> {Pm("weight", <<c.units, Rest(sh)>>, "xavier"), Pm("bias", <<c.units>>, "zero")}
    [] c.kind = "Convolution" -> {Pm("weight", <<c.co, sh[2], c.k[1], c.k[2]>>, "xavier"), Pm("bias", <<c.co>>, "zero")}
    [] c.kind \in {"BatchNorm1D", "BatchNorm2D"} -> {Pm("gamma", <<sh[2]>>, "one"), Pm("beta", <<sh[2]>>, "zero")}
    [] c.kind = "Dropout" -> {Pm("mask", sh, "zero")}
    [] OTHER -> {}
Buffers(c, sh) == IF c.kind \in {"BatchNorm1D", "BatchNorm2D"}
                  THEN {Pm("running_mean", <<sh[2]>>, "zero"), Pm("running_var", <<sh[2]>>, "zero")} ELSE {}
\* attributes: name -> values; floats by the bits the user gave (ab: alpha or p, eb: eps; models without floats leave them out)
At(n, v) == [n |-> n, v |-> v]
ABits(c) == IF "ab" \in DOMAIN c THEN c.ab ELSE c.a
EBits(c) == IF "eb" \in DOMAIN c THEN c.eb ELSE c.eps
DefEps   == 925353388      \* 1e-5
DefAlpha == 1036831949     \* 0.1
Attrs(c) ==
  CASE c.kind = "Linear" -> {At("units", <<c.units>>)}
    [] c.kind = "Convolution" -> {At("out_channels", <<c.co>>), At("kernel", c.k), At("padding", c.p), At("stride", c.s)}
    [] c.kind = "MaxPooling" -> {At("kernel", c.k), At("padding", c.p), At("stride", c.s)}
    [] c.kind \in {"LeakyReLU", "ELU"} -> {At("alpha", <<ABits(c)>>)}
    [] c.kind = "Dropout" -> {At("p", <<ABits(c)>>)}
    [] c.kind \in {"BatchNorm1D", "BatchNorm2D"} ->
         IF c.def THEN {At("eps", <<DefEps>>), At("alpha", <<DefAlpha>>)} ELSE {At("eps", <<EBits(c)>>), At("alpha", <<ABits(c)>>)}
    [] OTHER -> {}
AttrMatch(log, spec) ==
  /\ Len(log) = Cardinality(spec)
  /\ { [n |-> log[i].n, v |-> log[i].v] : i \in 1..Len(log) } = spec
=============================================================================
