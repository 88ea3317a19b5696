------------------------------ MODULE Tr_Model ------------------------------
EXTENDS ModelSpec, Trace

\* every event carries the whole world: all tensors of all layers, as seen through the layers
Fn(list) == [n \in { list[i].n : i \in 1..Len(list) } |-> LET i == CHOOSE i \in 1..Len(list) : list[i].n = n
                                                        IN [sh |-> list[i].sh, v |-> list[i].v, g |-> list[i].g]]
W(o) == [P |-> Fn(Ev.r.W[o].P), B |-> Fn(Ev.r.W[o].B)]
Flags(o) == { Ev.r.W[o].P[i].t : i \in 1..Len(Ev.r.W[o].P) }
WorldOK == /\ Len(Ev.r.W) = Len(OB')
           /\ \A o \in 1..Len(OB') :
                /\ Ev.r.W[o].name = OB'[o].name
                /\ W(o).P = OB'[o].P /\ W(o).B = OB'[o].B
                /\ Flags(o) \subseteq {OB'[o].t}
None == [P |-> NoFn, B |-> NoFn]
WOr(o) == IF o <= Len(Ev.r.W) THEN W(o) ELSE None

\* ---- structure of a model as reported
OrdKnown(lo, n) == \A i \in 1..Len(Ev.r.L) : Len(Ev.r.L[i].out) = 1 /\ Ev.r.L[i].out[1] > lo /\ Ev.r.L[i].out[1] <= n
OrdBuilt == [i \in 1..Len(Ev.r.L) |-> PH[Ev.r.L[i].out[1]].from]
OrdCloned(s) == [i \in 1..Len(Ev.r.L) |-> Len(CL) + Ev.r.L[i].out[1] - Len(PH) - Len(MD[s].ins)]
LayerIs(l0, k) == LET o == CL'[k].o
                  IN l0.name = OB'[o].name /\ l0.type = OB'[o].c.kind /\ l0.in = CL'[k].in /\ l0.out = <<CL'[k].out>>
KeySet(list) == { [k |-> list[i].k, o |-> list[i].o, n |-> list[i].n] : i \in 1..Len(list) }
KeysAfter(m, buffers) ==
  LET os == { CL'[MD'[m].ord[i]].o : i \in 1..Len(MD'[m].ord) }
  IN UNION { { [k |-> OB'[o].name \o "." \o n, o |-> o, n |-> n] :
                  n \in DOMAIN OB'[o].P \cup (IF buffers THEN DOMAIN OB'[o].B ELSE {}) } : o \in os }
\* the configuration numbers the placeholders in some way and describes exactly this graph
IdPairs(c, m) ==
  LET M == MD'[m]
  IN UNION ({ { <<M.ins[i], c.in[i]>> : i \in 1..Len(M.ins) }, { <<M.outs[i], c.out[i]>> : i \in 1..Len(M.outs) } }
        \cup { { <<CL'[M.ord[j]].in[a], c.ops[j].in[a]>> : a \in 1..Len(c.ops[j].in) } : j \in 1..Len(M.ord) }
        \cup { { <<CL'[M.ord[j]].out, c.ops[j].out[1]>> } : j \in 1..Len(M.ord) })
CfgOK(c, m) ==
  LET M == MD'[m]
  IN /\ Len(c.in) = Len(M.ins) /\ Len(c.out) = Len(M.outs) /\ Len(c.ops) = Len(M.ord)
     /\ \A j \in 1..Len(M.ord) : LET o == OB'[CL'[M.ord[j]].o]
          IN /\ c.ops[j].name = o.name /\ c.ops[j].type = o.c.kind
             /\ Len(c.ops[j].in) = Len(CL'[M.ord[j]].in) /\ Len(c.ops[j].out) = 1
             /\ AttrMatch(c.ops[j].attrs, Attrs(o.c))
     /\ \E I \in {IdPairs(c, m)} :
          /\ \A x, y \in I : (x[1] = y[1]) <=> (x[2] = y[2])
          /\ { c.ph[i].id : i \in 1..Len(c.ph) } = { x[2] : x \in I } /\ Len(c.ph) = Cardinality(I)
          /\ \A i \in 1..Len(c.ph) : \A x \in I : x[2] = c.ph[i].id => c.ph[i].sh = PH'[x[1]].sh
StructOK(m) ==
  /\ Ev.r.ins = MD'[m].ins /\ Ev.r.outs = MD'[m].outs
  /\ Len(Ev.r.L) = Len(MD'[m].ord) /\ \A i \in 1..Len(Ev.r.L) : LayerIs(Ev.r.L[i], MD'[m].ord[i])
  /\ KeySet(Ev.r.pk) = KeysAfter(m, FALSE) /\ Len(Ev.r.pk) = Cardinality(KeysAfter(m, FALSE))
  /\ KeySet(Ev.r.sk) = KeysAfter(m, TRUE) /\ Len(Ev.r.sk) = Cardinality(KeysAfter(m, TRUE))
  /\ CfgOK(Ev.r.cfg, m)
\* ---- dropout: the implementation's choices are read off the outputs
Seen(m) == [p \in RangeOf(MD[m].outs) |-> Ev.r.y[CHOOSE i \in 1..Len(MD[m].outs) : MD[m].outs[i] = p]]
Masks == [o \in { o \in 1..Len(OB) : OB[o].c.kind = "Dropout" } |-> WOr(o).P["mask"].v]
FrozenG == [o \in 1..Len(OB) |-> [n \in DOMAIN WOr(o).P |-> WOr(o).P[n].g]]
News(n) == [j \in 1..n |-> WOr(Len(OB) + j)]
Same == Ev.r.same
Res(e) == Ev.r.err = e
GetOK(m) ==
  IF \E k \in RangeOf(MD[m].ord) : OB[CL[k].o].name = Ev.name
  THEN LET k == CHOOSE k \in RangeOf(MD[m].ord) : OB[CL[k].o].name = Ev.name
       IN Res(0) /\ LayerIs(Ev.r.l, k)
  ELSE Res(1)
\* ---- a drawing as read back from the DOT text, whatever its nodes are called: the same graph as Drawing(m)
DotOK(r, m) ==
  LET d == Drawing(m)
      N == { i \in 1..Len(r.nodes) : TRUE }
      boxes == DOMAIN d.box
      ids(k) == { i \in N : r.nodes[i].box /\ r.nodes[i].label = d.box[k] }
  IN /\ r.ok /\ Len(r.nodes) = Cardinality(DOMAIN d.ph) + Cardinality(boxes)
     /\ \A k \in boxes : Cardinality(ids(k)) = 1
     /\ LET B == [k \in boxes |-> CHOOSE i \in N : i \in ids(k)]
            E == 1..Len(r.edges)
            Arg(q) == { e \in E : r.edges[e].b = B[q.k] /\ r.edges[e].port = q.port }
            Res1(q) == { e \in E : r.edges[e].a = B[q.k] /\ r.edges[e].port = q.port }
        IN /\ Len(r.edges) = Cardinality(d.arg) + Cardinality(d.res)
           /\ \A q \in d.arg : Cardinality(Arg(q)) = 1
           /\ \A q \in d.res : Cardinality(Res1(q)) = 1
           /\ LET I == { <<q.p, r.edges[CHOOSE e \in E : e \in Arg(q)].a>> : q \in d.arg }
                       \cup { <<q.p, r.edges[CHOOSE e \in E : e \in Res1(q)].b>> : q \in d.res }
                  rest == N \ ({ x[2] : x \in I } \cup { B[k] : k \in boxes })
                  lone == DOMAIN d.ph \ { x[1] : x \in I }
              IN /\ \A x, y \in I : (x[1] = y[1]) <=> (x[2] = y[2])
                 /\ \A x \in I : ~r.nodes[x[2]].box /\ r.nodes[x[2]].sh = d.ph[x[1]]
                 /\ \A i \in rest : ~r.nodes[i].box
                 /\ \A p \in lone : Cardinality({ i \in rest : r.nodes[i].sh = d.ph[p] }) = Cardinality({ p2 \in lone : d.ph[p2] = d.ph[p] })

TOp ==
  /\ IsOp
  /\ CASE Ev.op = "input" -> Input(Ev.sh) /\ Res(0)
       [] Ev.op = "new" -> New(Ev.c) /\ Res(0)
       [] Ev.op = "apply" -> Apply(Ev.o, Ev.in, WOr(Ev.o).P, WOr(Ev.o).B) /\ Res(0)
       [] Ev.op = "build" ->
            \/ Res(0) /\ OrdKnown(0, Len(PH)) /\ Build(Ev.ins, Ev.outs, OrdBuilt) /\ StructOK(Len(MD) + 1) = TRUE
            \/ Res(1) /\ BuildRefused(Ev.ins, Ev.outs, [o \in 1..Len(OB) |-> Ev.r.W[o].name])
       [] Ev.op = "compile" -> Compile(Ev.m) /\ Res(0)
       [] Ev.op = "fwd" -> \/ Res(0) /\ Fwd(Ev.m, Ev.x, Seen(Ev.m), Masks) /\ Ev.r.y = mout'.y /\ Same
                           \/ Res(1) /\ NotCompiled(Ev.m)
       [] Ev.op = "bwd" -> \/ Res(0) /\ Bwd(Ev.m, Ev.g, FrozenG) /\ Same
                           \/ Res(1) /\ NotCompiled(Ev.m)
       [] Ev.op = "set" -> SetT(Ev.o, Ev.n, Ev.v) /\ Res(0)
       [] Ev.op = "train" -> Train(Ev.m, Ev.t) /\ Res(0)
       [] Ev.op = "freeze" -> Freeze(Ev.o, Ev.t) /\ Res(0)
       [] Ev.op = "step" -> Step(Ev.m, Ev.lr) /\ Res(0)
       [] Ev.op = "get" -> UNCHANGED mvars /\ GetOK(Ev.m) = TRUE
       [] Ev.op = "savestate" -> SaveState(Ev.m, Ev.f) /\ Res(0)
       [] Ev.op = "savecfg" -> SaveCfg(Ev.m, Ev.f) /\ Res(0)
       [] Ev.op = "save" -> SaveAll(Ev.m, Ev.f) /\ Res(0)
       [] Ev.op = "dot" -> Draw(Ev.m) /\ Res(0) /\ DotOK(Ev.r.dot, Ev.m) = TRUE
       [] Ev.op = "badsave" -> SaveFails /\ Res(1)
       [] Ev.op = "loadstate" -> \/ Res(0) /\ LoadState(Ev.m, Ev.f)
                                 \/ Res(1) /\ LoadStateRefused(Ev.m, Ev.f, [o \in 1..Len(OB) |-> WOr(o)])
       [] Ev.op = "fromcfg" -> IF Holds(Ev.f, {"cfg", "model"})
                               THEN /\ Res(0) /\ OrdKnown(Len(PH), Len(PH) + Len(MD[FS[Ev.f].src].ins) + Len(MD[FS[Ev.f].src].ord))
                                    /\ FromCfg(Ev.f, News(Len(MD[FS[Ev.f].src].ord)), OrdCloned(FS[Ev.f].src)) /\ StructOK(Len(MD) + 1) = TRUE
                               ELSE Res(1) /\ LoadRefused
       [] Ev.op = "load" -> IF Holds(Ev.f, {"model"})
                            THEN /\ Res(0) /\ OrdKnown(Len(PH), Len(PH) + Len(MD[FS[Ev.f].src].ins) + Len(MD[FS[Ev.f].src].ord))
                                 /\ LoadAll(Ev.f, News(Len(MD[FS[Ev.f].src].ord)), OrdCloned(FS[Ev.f].src)) /\ StructOK(Len(MD) + 1) = TRUE
                            ELSE Res(1) /\ LoadRefused
       [] Ev.op = "trunc" -> LoadRefused /\ Res(0) /\ Ev.r.size > 0 /\ Ev.r.acc = << >> /\ Ev.r.full
  /\ WorldOK = TRUE
Start == /\ PH = << >> /\ CL = << >> /\ OB = << >> /\ MD = << >> /\ FS = NoFn /\ mout = [k |-> "none"]
TInit == l = 1 /\ Start /\ US = 0
TBegin == IsBegin /\ PH' = << >> /\ CL' = << >> /\ OB' = << >> /\ MD' = << >> /\ FS' = NoFn /\ mout' = [k |-> "none"] /\ US' = Ev.us
TEnd == IsEnd /\ UNCHANGED mvars
TNext == TBegin \/ TOp \/ TEnd
TSpec == TInit /\ [][TNext]_<<mvars, l>>
=============================================================================
