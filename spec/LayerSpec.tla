----------------------------- MODULE LayerSpec ------------------------------
(* Life cycle of layer instances: parameters, buffers, train/eval mode, the   *)
(* last forward pass, and what forward and backward return.  Several          *)
(* instances coexist; a call on one never affects another.                    *)
EXTENDS LayerMath

VARIABLES S,       \* instance -> state record
          out      \* what the last call returns

lvars == <<S, out>>

NoRes == [k |-> "none"]
\* c is the immutable configuration of an instance: kind plus its attributes
Fresh(c) == [c |-> c, w |-> << >>, b |-> << >>, rm |-> << >>, rv |-> << >>, train |-> TRUE,
             sh |-> << >>, x |-> << >>, x2 |-> << >>, y |-> << >>, aux |-> << >>, fed |-> FALSE, steps |-> 0,
             al |-> FALSE]    \* al: both inputs of the addition are the same tensor (x + x)

Size(sh) == Prod(sh)
Plane(sh) == IF Len(sh) <= 2 THEN 1 ELSE Prod(SubSeq(sh, 3, Len(sh)))

OutShape(c, sh) ==
  CASE c.kind = "Linear" -> <<sh[1], c.units>>
    [] c.kind = "Convolution" -> <<sh[1], c.co, OutDim(sh[3], c.k[1], c.p[1], c.s[1]), OutDim(sh[4], c.k[2], c.p[2], c.s[2])>>
    [] c.kind = "MaxPooling"  -> <<sh[1], sh[2], OutDim(sh[3], c.k[1], c.p[1], c.s[1]), OutDim(sh[4], c.k[2], c.p[2], c.s[2])>>
    [] c.kind = "GlobalAvgPooling" -> <<sh[1], sh[2], 1, 1>>
    [] OTHER -> sh

\* ---------------------------------------------------------------- forward
\* Results of both passes are sequences of integers at the unit the scenario
\* fixes per kind, each with a tolerance (0 where float arithmetic is exact).
\* aux: pooling: selected positions; dropout: kept set; batch norm: <<mean, s>>
BNStat(s, x, sh) ==
  LET N == sh[1]  C == sh[2]  P == Plane(sh)
      mean == TLCEval(BNMean(x, N, C, P))
      var == TLCEval(BNVar(x, mean, N, C, P))
  IN [mean |-> mean, var |-> var, sd |-> [c \in 1..C |-> Isqrt(var[c] + s.c.eps)],
      ok |-> BNExact(x, mean, var, N, C, P, s.c.eps)]

Aux(s, op) ==
  CASE s.c.kind = "MaxPooling" ->
         TLCEval(PoolArg(op.x, op.sh[1] * op.sh[2], op.sh[3], op.sh[4], s.c.k, s.c.p, s.c.s))
    [] s.c.kind \in {"BatchNorm1D", "BatchNorm2D"} /\ s.train -> BNStat(s, op.x, op.sh)
    [] OTHER -> << >>

\* evaluation-mode batch norm, times 2^8: running statistics are kept times 2^16
EvalY8(s, x, sh, i) ==
  LET c == ChOf(i, sh[2], Plane(sh))
      s8 == Isqrt(s.rv[c] + s.c.eps * 65536)
      t == RDiv(s.w[c] * (x[i] * 65536 - s.rm[c]), s8)
  IN [y |-> t + s.b[c] * 256, tol |-> 2 + (2 * Abs(t)) \div s8]   \* s8 is off by less than 1

FwdY(s, op, aux, kept) ==
  LET c == s.c  sh == op.sh  x == op.x  n == Size(sh)
  IN CASE c.kind = "Linear" -> TLCEval(LinearFwd(x, s.w, s.b, sh[1], Rest(sh), c.units))
       [] c.kind = "Convolution" ->
            TLCEval(ConvFwd(x, s.w, s.b, sh[1], sh[2], sh[3], sh[4], c.co, c.k, c.p, c.s))
       [] c.kind = "MaxPooling" -> [i \in 1..Len(aux) |-> x[aux[i]]]
       [] c.kind = "GlobalAvgPooling" ->            \* times 2^gs
            LET PL == sh[3] * sh[4]
            IN TLCEval([i \in 1..(sh[1] * sh[2]) |->
                  RDiv(SumF(LAMBDA t : x[(i - 1) * PL + t], PL) * Pow2(c.gs), PL)])
       [] c.kind = "Add" -> [i \in 1..n |-> x[i] + op.x2[i]]
       [] c.kind = "ReLU" -> [i \in 1..n |-> Max2(x[i], 0)]
       [] c.kind = "LeakyReLU" -> [i \in 1..n |-> IF x[i] < 0 THEN x[i] * c.a ELSE x[i] * Pow2(c.as)]
       [] c.kind = "ELU" ->                         \* times 2^(16 + as)
            [i \in 1..n |-> IF x[i] < 0 THEN c.a * (Exp16(x[i]) - 65536) ELSE Ln16(x[i]) * Pow2(c.as)]
       [] c.kind = "Sigmoid" -> [i \in 1..n |-> Sig15(x[i])]
       [] c.kind = "Softmax" -> Softmax15(x, sh[1], sh[2])
       [] c.kind = "Dropout" ->
            [i \in 1..n |-> IF ~s.train THEN x[i] ELSE IF i \in kept THEN (x[i] \div c.den) * c.num ELSE 0]
       [] c.kind \in {"BatchNorm1D", "BatchNorm2D"} ->
            IF s.train THEN TLCEval(BNY16(x, aux.mean, aux.sd, s.w, s.b, sh[1], sh[2], Plane(sh)))
            ELSE [i \in 1..n |-> EvalY8(s, x, sh, i).y]
FwdTol(s, op, y, i) ==
  LET c == s.c
  IN CASE c.kind = "GlobalAvgPooling" -> IF (op.sh[3] * op.sh[4]) \in {1, 2, 4, 8, 16, 32, 64} THEN 0 ELSE 1
       [] c.kind = "ELU" -> IF op.x[i] < 0 THEN 2 * c.a ELSE Pow2(c.as) * (2 + op.x[i] \div 8)
       [] c.kind = "Sigmoid" -> 2
       [] c.kind = "Softmax" -> 3 + op.sh[2]
       [] c.kind = "Dropout" -> IF s.train THEN c.tol ELSE 0
       [] c.kind \in {"BatchNorm1D", "BatchNorm2D"} ->
            IF s.train THEN 4 + Abs(y[i]) \div 1048576
            ELSE EvalY8(s, op.x, op.sh, i).tol
       [] OTHER -> 0

\* exponential running statistics, kept times 2^16
RunMean(s, aux) == [c \in 1..Len(s.rm) |-> RDiv(s.rm[c] * s.c.al + aux.mean[c] * 65536 * (s.c.ald - s.c.al), s.c.ald)]
RunVar(s, aux)  == [c \in 1..Len(s.rv) |-> RDiv(s.rv[c] * s.c.al + aux.var[c] * 65536 * (s.c.ald - s.c.al), s.c.ald)]
IsBN(s) == s.c.kind \in {"BatchNorm1D", "BatchNorm2D"}

Fwd(i, op, kept) ==
  LET s == S[i]
      aux == Aux(s, op)
      y == FwdY(s, op, aux, kept)
  IN /\ out' = [k |-> "fwd", y |-> y, s |-> s]
     /\ S' = [S EXCEPT ![i] = [s EXCEPT !.sh = op.sh, !.x = op.x, !.x2 = op.x2, !.al = op.al, !.y = y,
                 !.aux = IF s.c.kind = "Dropout" THEN kept ELSE aux, !.fed = TRUE,
                 !.rm = IF IsBN(s) /\ s.train THEN RunMean(s, aux) ELSE s.rm,
                 !.rv = IF IsBN(s) /\ s.train THEN RunVar(s, aux) ELSE s.rv,
                 !.steps = s.steps + 1]]

\* ---------------------------------------------------------------- backward
\* gradient with respect to the input(s), excluding what was there before
DX(s, g) ==
  LET c == s.c  sh == s.sh  x == s.x  n == Size(sh)
  IN CASE c.kind = "Linear" -> TLCEval(LinearDX(g, s.w, sh[1], Rest(sh), c.units))
       [] c.kind = "Convolution" -> TLCEval(ConvDX(g, s.w, sh[1], sh[2], sh[3], sh[4], c.co, c.k, c.p, c.s))
       [] c.kind = "MaxPooling" ->
            LET os == OutShape(c, sh)
            IN TLCEval(PoolDX(g, s.aux, sh[1] * sh[2], sh[3], sh[4], os[3] * os[4]))
       [] c.kind = "GlobalAvgPooling" ->
            LET PL == sh[3] * sh[4] IN [i \in 1..n |-> RDiv(g[(i - 1) \div PL + 1] * Pow2(c.gs), PL)]
       [] c.kind = "Add" -> IF s.al THEN [i \in 1..n |-> 2 * g[i]] ELSE g
       [] c.kind = "ReLU" -> [i \in 1..n |-> IF x[i] > 0 THEN g[i] ELSE 0]
       [] c.kind = "LeakyReLU" -> [i \in 1..n |-> IF x[i] < 0 THEN g[i] * c.a ELSE g[i] * Pow2(c.as)]
       [] c.kind = "ELU" -> [i \in 1..n |-> IF x[i] < 0 THEN g[i] * c.a * Exp16(x[i]) ELSE g[i] * 65536 * Pow2(c.as)]
       [] c.kind = "Sigmoid" ->                     \* times 2^15
            [i \in 1..n |-> g[i] * RDiv(Sig15(x[i]) * (32768 - Sig15(x[i])), 32768)]
       [] c.kind = "Softmax" -> SoftmaxDX12(s.y, g, sh[1], sh[2])
       [] c.kind = "Dropout" -> [i \in 1..n |-> IF i \in s.aux THEN (g[i] \div c.den) * c.num ELSE 0]
       [] IsBN(s) -> TLCEval(BNDX12(x, s.aux.mean, s.aux.sd, s.w, g, sh[1], sh[2], Plane(sh)))
DXTol(s, g, i) ==
  LET c == s.c
  IN CASE c.kind = "GlobalAvgPooling" -> IF (s.sh[3] * s.sh[4]) \in {1, 2, 4, 8, 16, 32, 64} THEN 0 ELSE 1
       [] c.kind = "ELU" -> IF s.x[i] < 0 THEN 2 * c.a * Abs(g[i]) + 1 ELSE 0
       [] c.kind = "Sigmoid" -> 3 * Abs(g[i]) + 1
       [] c.kind = "Softmax" -> 8 + 2 * s.sh[2]
       [] c.kind = "Dropout" -> c.tol
       [] IsBN(s) -> 4
       [] OTHER -> 0
DW(s, g) ==
  LET c == s.c  sh == s.sh
  IN CASE c.kind = "Linear" -> TLCEval(LinearDW(g, s.x, sh[1], Rest(sh), c.units))
       [] c.kind = "Convolution" -> TLCEval(ConvDW(g, s.x, sh[1], sh[2], sh[3], sh[4], c.co, c.k, c.p, c.s))
       [] IsBN(s) -> TLCEval(BNDGamma12(s.x, s.aux.mean, s.aux.sd, g, sh[1], sh[2], Plane(sh)))
       [] OTHER -> << >>
DB(s, g) ==
  LET c == s.c  sh == s.sh
  IN CASE c.kind = "Linear" -> TLCEval(LinearDB(g, sh[1], c.units))
       [] c.kind = "Convolution" ->
            LET os == OutShape(c, sh) IN TLCEval(ConvDB(g, sh[1], c.co, os[3] * os[4]))
       [] IsBN(s) -> TLCEval(BNDBeta(g, sh[1], sh[2], Plane(sh)))
       [] OTHER -> << >>
\* unit of the input gradient relative to the unit of the prior content
GradUnit(s) ==
  CASE s.c.kind = "GlobalAvgPooling" -> Pow2(s.c.gs)
    [] s.c.kind = "LeakyReLU" -> Pow2(s.c.as)
    [] s.c.kind = "ELU" -> 65536 * Pow2(s.c.as)
    [] s.c.kind = "Sigmoid" -> 32768
    [] s.c.kind = "Softmax" \/ IsBN(s) -> 4096
    [] OTHER -> 1

\* a backward pass is meaningful for the last forward pass, in training mode
BwdOk(i) == S[i].fed
Bwd(i, op) ==
  /\ BwdOk(i)
  /\ out' = [k |-> "bwd", dx |-> DX(S[i], op.g), dw |-> DW(S[i], op.g), db |-> DB(S[i], op.g), s |-> S[i]]
  /\ UNCHANGED S

SetP(i, op) == /\ S' = [S EXCEPT ![i].w = op.w, ![i].b = op.b, ![i].fed = FALSE] /\ out' = NoRes
SetB(i, op) == /\ S' = [S EXCEPT ![i].rm = op.rm, ![i].rv = op.rv, ![i].fed = FALSE] /\ out' = NoRes
Mode(i, op) == /\ S' = [S EXCEPT ![i].train = op.t, ![i].fed = FALSE] /\ out' = NoRes
=============================================================================
