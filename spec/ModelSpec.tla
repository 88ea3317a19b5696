----------------------------- MODULE ModelSpec ------------------------------
(* Models: expressions of layers over placeholders, built into models that    *)
(* run forward and backward over the whole graph, share parameters with every *)
(* other view of them, are trained, saved and loaded.                         *)
(*                                                                            *)
(* Units: activations, biases, betas and running statistics are integers      *)
(* times 2^-US; weights and gammas integers; their gradients times 2^-2US.    *)
EXTENDS ShapeMath

VARIABLES PH,    \* placeholders: [sh, from]; from = index of the producing call, 0 for inputs
          CL,    \* calls: [o, in, out]
          OB,    \* layer objects: [c, name, P, B, t]; P, B: tensor name -> [sh, v, g]
          MD,    \* models: [ins, outs, ord, comp, fed, env]
          FS,    \* files: name -> content
          US,    \* unit of activations
          mout   \* outcome of the last call
mvars == <<PH, CL, OB, MD, FS, US, mout>>

NoFn == [x \in {} |-> 0]
Done(k) == mout' = [k |-> k]
RangeOf(s) == { s[i] : i \in 1..Len(s) }
Lower(k) == CASE k = "Linear" -> "linear" [] k = "Convolution" -> "convolution" [] k = "MaxPooling" -> "maxpooling"
              [] k = "GlobalAvgPooling" -> "globalavgpooling" [] k = "ReLU" -> "relu" [] k = "LeakyReLU" -> "leakyrelu"
              [] k = "ELU" -> "elu" [] k = "Sigmoid" -> "sigmoid" [] k = "Softmax" -> "softmax" [] k = "Dropout" -> "dropout"
              [] k = "BatchNorm1D" -> "batchnorm1d" [] k = "BatchNorm2D" -> "batchnorm2d" [] k = "Add" -> "add"
IsNorm(c) == c.kind \in {"BatchNorm1D", "BatchNorm2D"}

------------------------------------------------------------------------------
\* Expressions
Input(sh) == PH' = Append(PH, [sh |-> sh, from |-> 0]) /\ UNCHANGED <<CL, OB, MD, FS, US>> /\ Done("ok")
New(c) == OB' = Append(OB, [c |-> c, name |-> c.name, P |-> NoFn, B |-> NoFn, t |-> TRUE])
          /\ UNCHANGED <<PH, CL, MD, FS, US>> /\ Done("ok")
\* init: what the implementation put into the new tensors (C12 decides those values; here they are only kept track of)
Names(S) == { q.n : q \in S }
ShapesFit(f, S) == DOMAIN f = Names(S) /\ \A q \in S : f[q.n].sh = q.sh /\ Len(f[q.n].v) = Prod(q.sh)
ZeroGrads(f) == \A n \in DOMAIN f : \A i \in 1..Len(f[n].g) : f[n].g[i] = 0
InitFits(c, sh, P, B) == ShapesFit(P, Params(c, sh)) /\ ShapesFit(B, Buffers(c, sh)) /\ ZeroGrads(P)
Apply(o, in, P, B) ==
  LET sh == PH[in[1]].sh
  IN /\ Accepts(OB[o].c, [i \in 1..Len(in) |-> PH[in[i]].sh])
     /\ IF DOMAIN OB[o].P = {} /\ Params(OB[o].c, sh) # {}
        THEN InitFits(OB[o].c, sh, P, B) /\ OB' = [OB EXCEPT ![o].P = P, ![o].B = B]
        ELSE UNCHANGED OB
     /\ CL' = Append(CL, [o |-> o, in |-> in, out |-> Len(PH) + 1])
     /\ PH' = Append(PH, [sh |-> OutShape(OB[o].c, sh), from |-> Len(CL) + 1])
     /\ UNCHANGED <<MD, FS, US>> /\ Done("ok")

------------------------------------------------------------------------------
\* Building a model: the calls its outputs depend on, in some topological order
ReachFrom(outs) ==     \* placeholders are numbered so that arguments precede results
  FoldLeft(LAMBDA R, i : LET p == Len(PH) - i + 1
                         IN IF p \in R /\ PH[p].from # 0 THEN R \cup RangeOf(CL[PH[p].from].in) ELSE R,
           RangeOf(outs), Idx(Len(PH)))
CallsOf(outs) == { PH[p].from : p \in ReachFrom(outs) } \ {0}
IsOrder(ord, calls) ==
  /\ RangeOf(ord) = calls /\ Len(ord) = Cardinality(calls)
  /\ \A i \in 1..Len(ord) : \A p \in RangeOf(CL[ord[i]].in) :
        PH[p].from # 0 => \E j \in 1..(i - 1) : ord[j] = PH[p].from
\* well-formed requests: inputs are inputs, outputs are results, nothing else is needed
WellFormed(ins, outs) ==
  /\ \A i \in 1..Len(ins) : PH[ins[i]].from = 0
  /\ \A i \in 1..Len(outs) : PH[outs[i]].from # 0
  /\ Cardinality(RangeOf(ins)) = Len(ins) /\ Cardinality(RangeOf(outs)) = Len(outs)
  /\ { p \in ReachFrom(outs) : PH[p].from = 0 } \subseteq RangeOf(ins)
AutoName(o, pos) == IF OB[o].name # "" THEN OB[o].name ELSE Lower(OB[o].c.kind) \o ToString(pos - 1)
\* the names the layers get when the calls are taken in this order
NamesBy(ord) == [i \in 1..Len(ord) |-> AutoName(CL[ord[i]].o, i)]
\* whether the names clash depends on the order only through positions: two calls of one layer always clash
SameLayer(calls) == \E a, b \in calls : a # b /\ CL[a].o = CL[b].o
Clash(ord) == SameLayer(RangeOf(ord)) \/ Cardinality(RangeOf(NamesBy(ord))) # Len(ord)
Build(ins, outs, ord) ==
  /\ WellFormed(ins, outs) = TRUE /\ IsOrder(ord, CallsOf(outs)) = TRUE /\ ~Clash(ord)
  /\ OB' = [o \in 1..Len(OB) |-> IF \E i \in 1..Len(ord) : CL[ord[i]].o = o
                                  THEN [OB[o] EXCEPT !.name = NamesBy(ord)[CHOOSE i \in 1..Len(ord) : CL[ord[i]].o = o]]
                                  ELSE OB[o]]
  /\ MD' = Append(MD, [ins |-> ins, outs |-> outs, ord |-> ord, comp |-> FALSE, fed |-> FALSE, env |-> NoFn])
  /\ UNCHANGED <<PH, CL, FS, US>> /\ Done("ok")
\* refused: some order clashes.  Layers that had no name may have been given one.
MayClash(calls) ==
  \/ SameLayer(calls)
  \/ \E a, b \in calls : a # b /\ OB[CL[a].o].name # "" /\ OB[CL[a].o].name = OB[CL[b].o].name
  \/ \E a, b \in calls : a # b /\ OB[CL[a].o].name # "" /\ OB[CL[b].o].name = ""
        /\ \E k \in 0..(Cardinality(calls) - 1) : OB[CL[a].o].name = Lower(OB[CL[b].o].c.kind) \o ToString(k)
BuildRefused(ins, outs, names) ==
  LET calls == CallsOf(outs)
  IN /\ WellFormed(ins, outs) = TRUE /\ MayClash(calls) = TRUE
     /\ TRUE = \A o \in 1..Len(OB) : \/ names[o] = OB[o].name
                              \/ /\ OB[o].name = "" /\ o \in { CL[k].o : k \in calls }
                                 /\ names[o] \in { Lower(OB[o].c.kind) \o ToString(k) : k \in 0..(Cardinality(calls) - 1) }
     /\ OB' = [o \in 1..Len(OB) |-> [OB[o] EXCEPT !.name = names[o]]]
     /\ UNCHANGED <<PH, CL, MD, FS, US>> /\ Done("refused")
Objects(m) == { CL[MD[m].ord[i]].o : i \in 1..Len(MD[m].ord) }
Keys(m, buffers) == UNION { { [k |-> OB[o].name \o "." \o n, o |-> o, n |-> n] :
                                n \in DOMAIN OB[o].P \cup (IF buffers THEN DOMAIN OB[o].B ELSE {}) } : o \in Objects(m) }

------------------------------------------------------------------------------
\* Forward
Tn(o, n) == IF n \in DOMAIN OB[o].P THEN OB[o].P[n] ELSE OB[o].B[n]
Pl(sh) == IF Len(sh) <= 2 THEN 1 ELSE Prod(SubSeq(sh, 3, Len(sh)))
\* batch statistics in units 2^-US (mean), 2^-2US (variance), 2^-US (deviation)
NMean(x, sh) == TLCEval(BNMean(x, sh[1], sh[2], Pl(sh)))
NVar(x, sh) == TLCEval(BNVar(x, NMean(x, sh), sh[1], sh[2], Pl(sh)))
NormStat(o, x, sh) ==
  IF OB[o].t THEN LET v == NVar(x, sh)
                  IN [mean |-> NMean(x, sh), var |-> v, sd |-> [c \in 1..sh[2] |-> Isqrt(v[c] + (OB[o].c.eps * Pow2(2 * US)) \div 16)]]
  ELSE [mean |-> OB[o].B["running_mean"].v, var |-> << >>,
        sd |-> [c \in 1..sh[2] |-> Isqrt((OB[o].B["running_var"].v[c] + (OB[o].c.eps * Pow2(US)) \div 16) * Pow2(US))]]
Val(k, env, seen) ==
  LET o == CL[k].o  c == OB[o].c  x == env[CL[k].in[1]]  sh == PH[CL[k].in[1]].sh
      n == Len(x)
  IN CASE c.kind = "Linear" -> TLCEval(LinearFwd(x, Tn(o, "weight").v, Tn(o, "bias").v, sh[1], Rest(sh), c.units))
       [] c.kind = "Convolution" ->
            TLCEval(ConvFwd(x, Tn(o, "weight").v, Tn(o, "bias").v, sh[1], sh[2], sh[3], sh[4], c.co, c.k, c.p, c.s))
       [] c.kind = "MaxPooling" ->
            LET a == TLCEval(PoolArg(x, sh[1] * sh[2], sh[3], sh[4], c.k, c.p, c.s)) IN [i \in 1..Len(a) |-> x[a[i]]]
       [] c.kind = "GlobalAvgPooling" ->
            LET s == TLCEval(PlaneSum(x, sh[1] * sh[2], Pl(sh))) IN [i \in 1..Len(s) |-> s[i] \div Pl(sh)]
       [] c.kind = "Add" -> LET x2 == env[CL[k].in[2]] IN [i \in 1..n |-> x[i] + x2[i]]
       [] c.kind = "ReLU" -> [i \in 1..n |-> Max2(x[i], 0)]
       [] c.kind = "LeakyReLU" -> [i \in 1..n |-> IF x[i] < 0 THEN (x[i] * c.a) \div 16 ELSE x[i]]
       [] c.kind = "Dropout" -> IF OB[o].t THEN seen[CL[k].out] ELSE x
       [] IsNorm(c) ->
            LET st == NormStat(o, x, sh)  g == Tn(o, "gamma").v  b == Tn(o, "beta").v
            IN [i \in 1..n |-> LET ch == ChOf(i, sh[2], Pl(sh))
                               IN (g[ch] * (x[i] - st.mean[ch]) * Pow2(US)) \div st.sd[ch] + b[ch]]
\* a dropout layer in training mode zeroes some elements and scales the others
DropOK(k, env) ==
  LET c == OB[CL[k].o].c  x == env[CL[k].in[1]]  y == env[CL[k].out]
  IN /\ Len(x) = Len(y)
     /\ \A i \in 1..Len(x) : y[i] = 0 \/ y[i] = (x[i] * 16) \div (16 - c.a)
     /\ (Len(x) >= 24 /\ c.a = 8) => \E i \in 1..Len(x) : y[i] # 0 \/ x[i] = 0
FwdEnv(m, xs, seen) ==
  FoldLeft(LAMBDA env, k : env @@ (CL[k].out :> TLCEval(Val(k, env, seen))),
           [p \in RangeOf(MD[m].ins) |-> xs[CHOOSE i \in 1..Len(xs) : MD[m].ins[i] = p]], MD[m].ord)
Mix(o, old, new) == [c \in 1..Len(old) |-> (old[c] * OB[o].c.a + new[c] * (16 - OB[o].c.a)) \div 16]
\* training mode moves the running statistics of the batch-norm layers (of these calls)
NormAfter(k, env) ==
  LET o == CL[k].o  x == env[CL[k].in[1]]  sh == PH[CL[k].in[1]].sh  st == NormStat(o, x, sh)
  IN [OB[o].B EXCEPT !["running_mean"].v = Mix(o, @, st.mean),
                     !["running_var"].v  = Mix(o, @, [c \in 1..sh[2] |-> st.var[c] \div Pow2(US)])]
CallIn(m, o) == LET ks == { k \in RangeOf(MD[m].ord) : CL[k].o = o } IN CHOOSE k \in ks : TRUE
\* the models holding one of these objects must run forward again before their next backward
Stale(os) == [m \in 1..Len(MD) |-> IF Objects(m) \cap os # {} THEN [MD[m] EXCEPT !.fed = FALSE] ELSE MD[m]]
Moved(m) == { o \in Objects(m) : IsNorm(OB[o].c) /\ OB[o].t }
Masked(m) == { o \in Objects(m) : OB[o].c.kind = "Dropout" /\ OB[o].t }
Fwd(m, xs, seen, masks) ==
  /\ MD[m].comp
  /\ \E env \in {FwdEnv(m, xs, seen)} :
       /\ \A o \in Masked(m) : DropOK(CallIn(m, o), env) = TRUE
       /\ OB' = [o \in 1..Len(OB) |-> IF o \in Moved(m) THEN [OB[o] EXCEPT !.B = NormAfter(CallIn(m, o), env)]
                                       ELSE IF o \in Masked(m) THEN [OB[o] EXCEPT !.P["mask"].v = masks[o]]
                                       ELSE OB[o]]
       /\ MD' = [MD EXCEPT ![m].fed = TRUE, ![m].env = env]
       /\ mout' = [k |-> "fwd", y |-> [i \in 1..Len(MD[m].outs) |-> env[MD[m].outs[i]]]]
  /\ UNCHANGED <<PH, CL, FS, US>>
NotCompiled(m) == ~MD[m].comp /\ UNCHANGED <<PH, CL, OB, MD, FS, US>> /\ Done("refused")
Compile(m) == MD' = [MD EXCEPT ![m].comp = TRUE, ![m].fed = FALSE] /\ UNCHANGED <<PH, CL, OB, FS, US>> /\ Done("ok")

------------------------------------------------------------------------------
\* Backward: gradients of every placeholder add up over its uses and the gradient given for it as an output
Vadd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
DXs(k, env, g) ==                     \* one input gradient per argument
  LET o == CL[k].o  c == OB[o].c  x == env[CL[k].in[1]]  sh == PH[CL[k].in[1]].sh  n == Len(x)
  IN CASE c.kind = "Linear" -> <<TLCEval(LinearDX(g, Tn(o, "weight").v, sh[1], Rest(sh), c.units))>>
       [] c.kind = "Convolution" -> <<TLCEval(ConvDX(g, Tn(o, "weight").v, sh[1], sh[2], sh[3], sh[4], c.co, c.k, c.p, c.s))>>
       [] c.kind = "MaxPooling" ->
            LET os == OutShape(c, sh)
            IN <<TLCEval(PoolDX(g, TLCEval(PoolArg(x, sh[1] * sh[2], sh[3], sh[4], c.k, c.p, c.s)), sh[1] * sh[2], sh[3], sh[4],
                                os[3] * os[4]))>>
       [] c.kind = "GlobalAvgPooling" -> <<[i \in 1..n |-> g[(i - 1) \div Pl(sh) + 1] \div Pl(sh)]>>
       [] c.kind = "Add" -> <<g, g>>
       [] c.kind = "ReLU" -> <<[i \in 1..n |-> IF x[i] > 0 THEN g[i] ELSE 0]>>
       [] c.kind = "LeakyReLU" -> <<[i \in 1..n |-> IF x[i] < 0 THEN (g[i] * c.a) \div 16 ELSE g[i]]>>
       [] OTHER -> <<[i \in 1..n |-> 0]>>      \* batch norm: only directly on inputs, whose gradients nobody sees
DPs(k, env, g) ==                     \* parameter gradients
  LET o == CL[k].o  c == OB[o].c  x == env[CL[k].in[1]]  sh == PH[CL[k].in[1]].sh
  IN CASE c.kind = "Linear" -> [weight |-> TLCEval(LinearDW(g, x, sh[1], Rest(sh), c.units)), bias |-> TLCEval(LinearDB(g, sh[1], c.units))]
       [] c.kind = "Convolution" ->
            LET os == OutShape(c, sh)
            IN [weight |-> TLCEval(ConvDW(g, x, sh[1], sh[2], sh[3], sh[4], c.co, c.k, c.p, c.s)),
                bias |-> TLCEval(ConvDB(g, sh[1], c.co, os[3] * os[4]))]
       [] IsNorm(c) ->
            LET st == NormStat(o, x, sh)
            IN [gamma |-> TLCEval([ch \in 1..sh[2] |->
                   (ChSum(LAMBDA i : (x[i] - st.mean[ch]) * g[i], sh[1], ch, sh[2], Pl(sh)) * Pow2(US)) \div st.sd[ch]]),
                beta |-> TLCEval(BNDBeta(g, sh[1], sh[2], Pl(sh)))]
       [] OTHER -> NoFn
Zero(p) == [i \in 1..Prod(PH[p].sh) |-> 0]
BwdAll(m, gs) ==
  LET env == MD[m].env
      g0 == [p \in DOMAIN env |-> IF p \in RangeOf(MD[m].outs) THEN gs[CHOOSE i \in 1..Len(gs) : MD[m].outs[i] = p] ELSE Zero(p)]
      Step(a, k) == LET g == a.G[CL[k].out]
                        d == TLCEval(DXs(k, env, g))
                        G1 == [a.G EXCEPT ![CL[k].in[1]] = Vadd(@, d[1])]
                        G2 == IF Len(d) = 2 THEN [G1 EXCEPT ![CL[k].in[2]] = Vadd(@, d[2])] ELSE G1
                    IN [G |-> TLCEval(G2), D |-> a.D @@ (CL[k].o :> TLCEval(DPs(k, env, g)))]
  IN FoldLeft(Step, [G |-> g0, D |-> NoFn], Reverse(MD[m].ord))
\* fr: what the implementation left in the gradients of frozen layers (it may, but need not, compute those)
WithG(o, d) == [n \in DOMAIN OB[o].P |-> IF n \in DOMAIN d THEN [OB[o].P[n] EXCEPT !.g = d[n]] ELSE OB[o].P[n]]
Bwd(m, gs, fr) ==
  /\ MD[m].comp /\ MD[m].fed
  /\ \E D \in {BwdAll(m, gs).D} :
       /\ \A o \in DOMAIN D : ~OB[o].t => \A n \in DOMAIN D[o] : fr[o][n] \in {D[o][n], OB[o].P[n].g}
       /\ OB' = [o \in 1..Len(OB) |-> IF o \in DOMAIN D THEN [OB[o] EXCEPT !.P = WithG(o, IF OB[o].t THEN D[o] ELSE fr[o])] ELSE OB[o]]
  /\ UNCHANGED <<PH, CL, MD, FS, US>> /\ Done("ok")

------------------------------------------------------------------------------
\* Parameters are one and the same through layers, params() and state()
SetT(o, n, v) ==
  /\ OB' = [OB EXCEPT ![o] = IF n \in DOMAIN @.P THEN [@ EXCEPT !.P[n].v = v] ELSE [@ EXCEPT !.B[n].v = v]]
  /\ MD' = Stale({o}) /\ UNCHANGED <<PH, CL, FS, US>> /\ Done("ok")
TrainSet(os, t) == /\ OB' = [o \in 1..Len(OB) |-> IF o \in os THEN [OB[o] EXCEPT !.t = t] ELSE OB[o]]
                   /\ MD' = Stale(os) /\ UNCHANGED <<PH, CL, FS, US>> /\ Done("ok")
Train(m, t) == TrainSet(Objects(m), t)
Freeze(o, t) == TrainSet({o}, t)
Coarse == {"weight", "gamma", "mask"}
Step(m, lr) ==
  LET New1(p, n) == [i \in 1..Len(p.v) |-> p.v[i] - (IF n \in Coarse THEN (lr * p.g[i]) \div Pow2(2 * US) ELSE lr * p.g[i])]
      After(o) == [n \in DOMAIN OB[o].P |-> [OB[o].P[n] EXCEPT !.v = New1(OB[o].P[n], n)]]
  IN /\ OB' = [o \in 1..Len(OB) |-> IF o \in Objects(m) /\ OB[o].t /\ OB[o].c.kind # "Dropout"
                                     THEN [OB[o] EXCEPT !.P = After(o)] ELSE OB[o]]
     /\ MD' = Stale(Objects(m)) /\ UNCHANGED <<PH, CL, FS, US>> /\ Done("ok")

------------------------------------------------------------------------------
\* The drawing of a model: a node per placeholder (with its shape) and per layer (with name and type), an edge for every
\* argument and result of every layer, with its port
Drawn(m) == RangeOf(MD[m].ins) \cup RangeOf(MD[m].outs) \cup UNION { RangeOf(CL[k].in) \cup {CL[k].out} : k \in RangeOf(MD[m].ord) }
Drawing(m) ==
  [ph |-> [p \in Drawn(m) |-> PH[p].sh],
   box |-> [k \in RangeOf(MD[m].ord) |-> OB[CL[k].o].name \o " (" \o OB[CL[k].o].c.kind \o ")"],
   arg |-> UNION { { [p |-> CL[k].in[a], k |-> k, port |-> a - 1] : a \in 1..Len(CL[k].in) } : k \in RangeOf(MD[m].ord) },
   res |-> { [p |-> CL[k].out, k |-> k, port |-> 0] : k \in RangeOf(MD[m].ord) }]
Draw(m) == UNCHANGED <<PH, CL, OB, MD, FS, US>> /\ Done("ok")

------------------------------------------------------------------------------
\* Files
StateOf(m) == LET K == Keys(m, TRUE)
              IN [k \in { q.k : q \in K } |-> LET q == CHOOSE q \in K : q.k = k IN [sh |-> Tn(q.o, q.n).sh, v |-> Tn(q.o, q.n).v]]
Store(f, c) == FS' = (f :> c) @@ FS
SaveState(m, f) == Store(f, [k |-> "state", st |-> StateOf(m)]) /\ UNCHANGED <<PH, CL, OB, MD, US>> /\ Done("ok")
SaveCfg(m, f) == Store(f, [k |-> "cfg", src |-> m]) /\ UNCHANGED <<PH, CL, OB, MD, US>> /\ Done("ok")
SaveAll(m, f) == Store(f, [k |-> "model", src |-> m, st |-> StateOf(m)]) /\ UNCHANGED <<PH, CL, OB, MD, US>> /\ Done("ok")
SaveFails == UNCHANGED <<PH, CL, OB, MD, FS, US>> /\ Done("refused")
Holds(f, ks) == f \in DOMAIN FS /\ FS[f].k \in ks
Fits(m, st) == LET K == Keys(m, TRUE)
               IN \A k \in DOMAIN st : \E q \in K : q.k = k /\ Tn(q.o, q.n).sh = st[k].sh
LoadedT(o, st) ==
  LET L(n, t) == LET k == OB[o].name \o "." \o n IN IF k \in DOMAIN st THEN [t EXCEPT !.v = st[k].v] ELSE t
  IN [OB[o] EXCEPT !.P = [n \in DOMAIN OB[o].P |-> L(n, OB[o].P[n])], !.B = [n \in DOMAIN OB[o].B |-> L(n, OB[o].B[n])]]
LoadStateOK(m, f) == Holds(f, {"state"}) /\ Fits(m, FS[f].st)
LoadState(m, f) ==
  /\ LoadStateOK(m, f) = TRUE
  /\ OB' = [o \in 1..Len(OB) |-> IF o \in Objects(m) THEN LoadedT(o, FS[f].st) ELSE OB[o]]
  /\ MD' = Stale(Objects(m)) /\ UNCHANGED <<PH, CL, FS, US>> /\ Done("ok")
\* a refused load may have replaced some of the values already (never shapes, gradients or flags)
SameBut(a, b) == DOMAIN a = DOMAIN b /\ \A n \in DOMAIN a : a[n].sh = b[n].sh /\ a[n].g = b[n].g /\ Len(a[n].v) = Len(b[n].v)
LoadStateRefused(m, f, after) ==
  /\ ~LoadStateOK(m, f)
  /\ OB' = [o \in 1..Len(OB) |-> IF o \in Objects(m) /\ Holds(f, {"state"})
                                  THEN [OB[o] EXCEPT !.P = after[o].P, !.B = after[o].B] ELSE OB[o]]
  /\ \A o \in 1..Len(OB) : SameBut(OB'[o].P, OB[o].P) /\ SameBut(OB'[o].B, OB[o].B)
  /\ MD' = Stale(Objects(m)) /\ UNCHANGED <<PH, CL, FS, US>> /\ Done("refused")
\* a new model with the structure of model s: own placeholders, own layers with the same names and attributes
Can(s) == SetToSortSeq(RangeOf(MD[s].ord), LAMBDA a, b : a < b)      \* its calls, oldest first
CloneP(s, p) == LET i == { j \in 1..Len(MD[s].ins) : MD[s].ins[j] = p }
                IN IF i # {} THEN Len(PH) + (CHOOSE j \in i : TRUE)
                   ELSE Len(PH) + Len(MD[s].ins) + (CHOOSE j \in 1..Len(MD[s].ord) : CL[Can(s)[j]].out = p)
Clone(s, ts, ord) ==        \* ts: tensors of the new layers, one per call of the source model
  LET n == Len(MD[s].ord)  src == MD[s]  can == Can(s)
      ob(j) == OB[CL[can[j]].o]
  IN /\ PH' = PH \o [i \in 1..Len(src.ins) |-> PH[src.ins[i]]]
                 \o [j \in 1..n |-> [sh |-> PH[CL[can[j]].out].sh, from |-> Len(CL) + j]]
     /\ CL' = CL \o [j \in 1..n |-> [o |-> Len(OB) + j, in |-> [a \in 1..Len(CL[can[j]].in) |-> CloneP(s, CL[can[j]].in[a])],
                                     out |-> CloneP(s, CL[can[j]].out)]]
     /\ OB' = OB \o [j \in 1..n |-> [c |-> [ob(j).c EXCEPT !.name = ob(j).name], name |-> ob(j).name, P |-> ts[j].P, B |-> ts[j].B, t |-> TRUE]]
     /\ \A j \in 1..n : InitFits(ob(j).c, PH[CL[can[j]].in[1]].sh, ts[j].P, ts[j].B)
     /\ MD' = Append(MD, [ins |-> [i \in 1..Len(src.ins) |-> Len(PH) + i], outs |-> [i \in 1..Len(src.outs) |-> CloneP(s, src.outs[i])],
                          ord |-> ord, comp |-> FALSE, fed |-> FALSE, env |-> NoFn])
     /\ UNCHANGED <<FS, US>> /\ Done("ok")
\* ord' is judged on the new calls
OrderOK(m) == LET calls == RangeOf(MD'[m].ord)
              IN /\ Len(MD'[m].ord) = Cardinality(calls)
                 /\ \A i \in 1..Len(MD'[m].ord) : \A p \in RangeOf(CL'[MD'[m].ord[i]].in) :
                       PH'[p].from # 0 => \E j \in 1..(i - 1) : MD'[m].ord[j] = PH'[p].from
NewCalls(s) == { Len(CL) + j : j \in 1..Len(MD[s].ord) }
FromCfg(f, ts, ord) == Holds(f, {"cfg", "model"}) /\ Clone(FS[f].src, ts, ord) /\ OrderOK(Len(MD) + 1) = TRUE
                       /\ RangeOf(ord) = NewCalls(FS[f].src)
LoadAll(f, ts, ord) ==
  /\ Holds(f, {"model"}) /\ Clone(FS[f].src, ts, ord) /\ OrderOK(Len(MD) + 1) = TRUE /\ RangeOf(ord) = NewCalls(FS[f].src)
  /\ LET s == FS[f].src
     IN \A j \in 1..Len(ts) : \A n \in DOMAIN ts[j].P \cup DOMAIN ts[j].B :
          LET k == OB[CL[Can(s)[j]].o].name \o "." \o n
              t == IF n \in DOMAIN ts[j].P THEN ts[j].P[n] ELSE ts[j].B[n]
          IN k \in DOMAIN FS[f].st /\ t.v = FS[f].st[k].v
LoadRefused == UNCHANGED <<PH, CL, OB, MD, FS, US>> /\ Done("refused")
=============================================================================
