------------------------------ MODULE MC_Prog -------------------------------
(* Programs over models: structure only (tensors hold zeros).  Checked        *)
(* exhaustively for small lengths, and simulated to generate histories.       *)
EXTENDS ModelSpec, Json
CONSTANTS MaxLen, Kinds, Shapes, NameSet, Struct, Runs, Files, MaxModels, Saving, Pictures
\* Struct: all layer kinds anywhere, nothing is run;  Runs: forward/backward/step;  Files: set of file names
VARIABLES hist, done
vars == <<mvars, hist, done>>

Shape(s) == CASE s = "v" -> <<2, 3>> [] s = "w" -> <<4, 2>> [] s = "i" -> <<2, 2, 4, 4>> [] s = "j" -> <<1, 2, 5, 4>>
Conf(k, v) == CASE k = "Linear" -> [kind |-> k, units |-> v + 2]
              [] k = "Convolution" -> IF v = 0 THEN [kind |-> k, co |-> 2, k |-> <<3, 3>>, p |-> <<1, 1>>, s |-> <<1, 1>>]
                                      ELSE [kind |-> k, co |-> 1, k |-> <<2, 3>>, p |-> <<0, 1>>, s |-> <<2, 1>>]
              [] k = "MaxPooling" -> IF v = 0 THEN [kind |-> k, k |-> <<2, 2>>, p |-> <<0, 0>>, s |-> <<2, 2>>]
                                      ELSE [kind |-> k, k |-> <<3, 2>>, p |-> <<1, 1>>, s |-> <<1, 2>>]
              [] k \in {"LeakyReLU", "ELU"} -> [kind |-> k, a |-> IF v = 0 THEN 8 ELSE 32]
              [] k = "Dropout" -> [kind |-> k, a |-> 8]
              [] k \in {"BatchNorm1D", "BatchNorm2D"} -> [kind |-> k, def |-> FALSE, eps |-> IF v = 0 THEN 48 ELSE 240, a |-> IF v = 0 THEN 8 ELSE 0]
              [] OTHER -> [kind |-> k]
Zeros(S, grads) == [n \in { q.n : q \in S } |-> LET q == CHOOSE q \in S : q.n = n
                       IN [sh |-> q.sh, v |-> [i \in 1..Prod(q.sh) |-> 0], g |-> IF grads THEN [i \in 1..Prod(q.sh) |-> 0] ELSE << >>]]
Fresh(c, sh) == [P |-> Zeros(Params(c, sh), TRUE), B |-> Zeros(Buffers(c, sh), FALSE)]

H(r) == hist' = Append(hist, r)
Seldom == (Len(hist) % 5) = 0
KindOf(p) == IF PH[p].from = 0 THEN "input" ELSE OB[CL[PH[p].from].o].c.kind
\* what may be applied where so that exact arithmetic is possible
Plane(sh) == IF Len(sh) = 4 THEN sh[3] * sh[4] ELSE 1
Usable(c, p) ==
  LET sh == PH[p].sh
  IN /\ Accepts(c, <<sh, sh>>) /\ \A i \in 1..Len(OutShape(c, sh)) : OutShape(c, sh)[i] >= 1
     /\ c.kind \in {"Convolution", "MaxPooling"} => sh[3] + 2 * c.p[1] >= c.k[1] /\ sh[4] + 2 * c.p[2] >= c.k[2]
     /\ c.kind \in {"BatchNorm1D", "Softmax"} => Len(sh) = 2
     /\ ~Struct => /\ KindOf(p) # "Dropout"
                   /\ IsNorm(c) => KindOf(p) = "input" /\ ((sh[1] * Plane(sh)) % 2) = 0
                   /\ c.kind = "GlobalAvgPooling" => Plane(sh) \in {1, 2, 4}
\* the latest placeholders, so that graphs grow deep as well as wide
Recent == { p \in 1..Len(PH) : p > Len(PH) - 6 }
\* names: none, one of their own, or (seldom) one that others use as well
Tags == IF Seldom THEN NameSet ELSE NameSet \ {"same"}
NameFor(tag) == IF tag \in {"", "same"} THEN tag ELSE tag \o ToString(Len(OB) + 1)
Inputs == \E s \in Shapes : Input(Shape(s)) /\ H([op |-> "input", sh |-> Shape(s)])
Layers2 == \E k \in Kinds \ {"Add"}, v \in {0, 1}, tag \in Tags : \E p \in Recent :
             LET nm == NameFor(tag)  c == Conf(k, v) @@ [name |-> nm]  t == Fresh(c, PH[p].sh)
             IN /\ Usable(c, p)
                /\ OB' = Append(OB, [c |-> c, name |-> nm, P |-> t.P, B |-> t.B, t |-> TRUE])
                /\ CL' = Append(CL, [o |-> Len(OB) + 1, in |-> <<p>>, out |-> Len(PH) + 1])
                /\ PH' = Append(PH, [sh |-> OutShape(c, PH[p].sh), from |-> Len(CL) + 1])
                /\ UNCHANGED <<MD, FS, US>> /\ Done("ok")
                /\ H([op |-> "layer", c |-> c, in |-> <<p>>])
Adds == "Add" \in Kinds /\ \E tag \in Tags : \E p, q \in Recent :
             LET nm == NameFor(tag)  c == [kind |-> "Add", name |-> nm]
             IN /\ PH[p].sh = PH[q].sh /\ (Struct \/ (KindOf(p) # "Dropout" /\ KindOf(q) # "Dropout"))
                /\ OB' = Append(OB, [c |-> c, name |-> nm, P |-> NoFn, B |-> NoFn, t |-> TRUE])
                /\ CL' = Append(CL, [o |-> Len(OB) + 1, in |-> <<p, q>>, out |-> Len(PH) + 1])
                /\ PH' = Append(PH, [sh |-> PH[p].sh, from |-> Len(CL) + 1])
                /\ UNCHANGED <<MD, FS, US>> /\ Done("ok")
                /\ H([op |-> "layer", c |-> c, in |-> <<p, q>>])
\* the same layer object applied somewhere else (equal input shape)
\* (the layers of a loaded model cannot be applied by the user)
Agains == Seldom /\ (\A i \in 1..Len(hist) : hist[i].op \notin {"load", "fromcfg"}) /\ \E k \in 1..Len(CL) : \E p \in Recent :
             /\ Len(CL[k].in) = 1 /\ PH[p].sh = PH[CL[k].in[1]].sh /\ Usable(OB[CL[k].o].c, p)
             /\ CL' = Append(CL, [o |-> CL[k].o, in |-> <<p>>, out |-> Len(PH) + 1])
             /\ PH' = Append(PH, [sh |-> PH[CL[k].out].sh, from |-> Len(CL) + 1])
             /\ UNCHANGED <<OB, MD, FS, US>> /\ Done("ok")
             /\ H([op |-> "again", o |-> CL[k].o, in |-> <<p>>])
\* calls are numbered in a topological order
SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Need(outs) == { p \in ReachFrom(outs) : PH[p].from = 0 }
InSeqs(outs) == LET n == Need(outs)  all == { p \in 1..Len(PH) : PH[p].from = 0 }
                IN { SortedSeq(n), Reverse(SortedSeq(n)) } \cup { SortedSeq(n \cup {x}) : x \in all \ n }
Results == { p \in 1..Len(PH) : PH[p].from # 0 }
OutSeqs == { <<p>> : p \in Results } \cup { <<p, q>> : p \in Results, q \in Results \cap Recent }
Builds == /\ Len(MD) < MaxModels /\ (Seldom \/ Struct)
          /\ \E outs \in { s \in OutSeqs : Cardinality(RangeOf(s)) = Len(s) } : \E ins \in InSeqs(outs) :
                LET ord == SortedSeq(CallsOf(outs))
                IN IF Clash(ord)
                   THEN /\ BuildRefused(ins, outs, [o \in 1..Len(OB) |-> OB[o].name])
                        /\ H([op |-> "build", ins |-> ins, outs |-> outs, clash |-> TRUE])
                   ELSE /\ Build(ins, outs, ord) /\ H([op |-> "build", ins |-> ins, outs |-> outs, clash |-> FALSE])
\* a model over the whole graph
Ends == { p \in Results : \A k \in 1..Len(CL) : p \notin RangeOf(CL[k].in) }
Compatible(n) ==      \* a set of at most n ends that can be in one model
  FoldLeft(LAMBDA S, p : LET T == S \cup {p} IN IF Cardinality(T) > n \/ Clash(SortedSeq(CallsOf(SortedSeq(T)))) THEN S ELSE T,
           {}, Reverse(SortedSeq(Ends)))
Whole == /\ Len(MD) < MaxModels /\ Len(CL) >= 3
         /\ \E n \in 1..3 : \E T \in {Compatible(n)} :
            \E outs \in {SortedSeq(T), Reverse(SortedSeq(T))} : \E ins \in InSeqs(outs) :
                LET ord == SortedSeq(CallsOf(outs))
                IN /\ T # {}
                   /\ Build(ins, outs, ord) /\ H([op |-> "build", ins |-> ins, outs |-> outs, clash |-> FALSE])
Mods == 1..Len(MD)
Touch(r) == UNCHANGED mvars /\ H(r)
Compiles == \E m \in Mods : (Runs /\ (~MD[m].comp \/ Seldom)) /\ Compile(m) /\ H([op |-> "compile", m |-> m])
Fwds == \E m \in Mods : /\ Runs /\ (MD[m].comp \/ Seldom)
                        /\ MD' = [MD EXCEPT ![m].fed = MD[m].comp] /\ UNCHANGED <<PH, CL, OB, FS, US>> /\ Done("ok")
                        /\ H([op |-> "fwd", m |-> m])
NoModes(m) == \A o \in Objects(m) : OB[o].c.kind # "Dropout" /\ (IsNorm(OB[o].c) => OB[o].t)
\* backward needs a forward run before; a training step both
Ready(m) == IF MD[m].fed THEN << >> ELSE <<[op |-> "fwd", m |-> m]>>
Bwds == \E m \in Mods : /\ Runs /\ MD[m].comp /\ NoModes(m)
                        /\ MD' = [MD EXCEPT ![m].fed = TRUE] /\ UNCHANGED <<PH, CL, OB, FS, US>> /\ Done("ok")
                        /\ hist' = hist \o Ready(m) \o <<[op |-> "bwd", m |-> m]>>
Steps == \E m \in Mods : /\ Runs /\ MD[m].comp /\ NoModes(m)
                         /\ MD' = Stale(Objects(m)) /\ UNCHANGED <<PH, CL, OB, FS, US>> /\ Done("ok")
                         /\ hist' = hist \o Ready(m) \o <<[op |-> "bwd", m |-> m], [op |-> "step", m |-> m]>>
Sets == \E m \in Mods : \E q \in Keys(m, TRUE) : MD' = Stale({q.o}) /\ UNCHANGED <<PH, CL, OB, FS, US>> /\ Done("ok")
                         /\ H([op |-> "set", m |-> m, o |-> q.o, n |-> q.n])
Trains == \E m \in Mods, t \in BOOLEAN : Train(m, t) /\ H([op |-> "train", m |-> m, t |-> t])
Freezes == \E o \in 1..Len(OB), t \in BOOLEAN : Len(MD) > 0 /\ DOMAIN OB[o].P # {} /\ Freeze(o, t) /\ H([op |-> "freeze", o |-> o, t |-> t])
Draws == Pictures /\ \E m \in Mods : Draw(m) /\ H([op |-> "dot", m |-> m])
Gets == Seldom /\ \E m \in Mods : Touch([op |-> "get", m |-> m])
Saves == \E m \in Mods, f \in Files :
            \/ "state" \in Saving /\ SaveState(m, f) /\ H([op |-> "savestate", m |-> m, f |-> f])
            \/ "cfg" \in Saving /\ SaveCfg(m, f) /\ H([op |-> "savecfg", m |-> m, f |-> f])
            \/ "model" \in Saving /\ SaveAll(m, f) /\ H([op |-> "save", m |-> m, f |-> f])
LoadStates == \E m \in Mods, f \in DOMAIN FS :
                 \/ LoadState(m, f) /\ H([op |-> "loadstate", m |-> m, f |-> f, ok |-> TRUE])
                 \/ LoadStateRefused(m, f, [o \in 1..Len(OB) |-> [P |-> OB[o].P, B |-> OB[o].B]])
                    /\ H([op |-> "loadstate", m |-> m, f |-> f, ok |-> FALSE])
ClonedOrd(s) == [j \in 1..Len(MD[s].ord) |-> Len(CL) + j]
Tensors(s) == [j \in 1..Len(MD[s].ord) |-> LET o == OB[CL[Can(s)[j]].o]
                 IN [P |-> [n \in DOMAIN o.P |-> [o.P[n] EXCEPT !.g = [i \in 1..Len(@) |-> 0]]], B |-> o.B]]
Loads == /\ Len(MD) < MaxModels
         /\ \E f \in DOMAIN FS :
              \/ /\ Holds(f, {"model"}) /\ LoadAll(f, Tensors(FS[f].src), ClonedOrd(FS[f].src)) /\ H([op |-> "load", f |-> f, ok |-> TRUE])
              \/ /\ Holds(f, {"cfg", "model"}) /\ FromCfg(f, Tensors(FS[f].src), ClonedOrd(FS[f].src)) /\ H([op |-> "fromcfg", f |-> f, ok |-> TRUE])
              \/ /\ ~Holds(f, {"model"}) /\ LoadRefused /\ H([op |-> "load", f |-> f, ok |-> FALSE])
              \/ /\ ~Holds(f, {"cfg", "model"}) /\ LoadRefused /\ H([op |-> "fromcfg", f |-> f, ok |-> FALSE])
Init == /\ PH = << >> /\ CL = << >> /\ OB = << >> /\ MD = << >> /\ FS = NoFn /\ US = 0 /\ mout = [k |-> "none"]
        /\ hist = << >> /\ done = FALSE
Go == Len(hist) < MaxLen /\ UNCHANGED done
Finish == Len(hist) >= MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<mvars, hist>>
\* first mostly expressions, then models
Grow == Go /\ (3 * Len(hist) < 2 * MaxLen \/ Struct)
Late == Go /\ 4 * Len(hist) >= MaxLen
Next ==
  \/ Grow /\ Cardinality({ p \in 1..Len(PH) : PH[p].from = 0 }) < 3 /\ (Len(PH) < 2 \/ Seldom) /\ Inputs
  \/ Grow /\ Layers2
  \/ Grow /\ Layers2
  \/ Grow /\ Layers2
  \/ Grow /\ Adds
  \/ Grow /\ Agains
  \/ Late /\ Builds
  \/ Late /\ Whole
  \/ Late /\ Compiles
  \/ Late /\ Fwds
  \/ Late /\ Fwds
  \/ Late /\ Bwds
  \/ Late /\ Bwds
  \/ Late /\ Runs /\ Steps
  \/ Late /\ Runs /\ Sets
  \/ Late /\ Runs /\ Trains
  \/ Late /\ Runs /\ Freezes
  \/ Late /\ Gets
  \/ Late /\ Draws
  \/ Late /\ Draws
  \/ Late /\ Saves
  \/ Late /\ LoadStates
  \/ Late /\ Loads
  \/ Finish
Spec == Init /\ [][Next]_vars
View == <<PH, CL, OB, MD, FS, Len(hist)>>
------------------------------------------------------------------------------
Acyclic == \A k \in 1..Len(CL) : \A p \in RangeOf(CL[k].in) : p < CL[k].out
Ordered == \A m \in Mods : IsOrder(MD[m].ord, CallsOf(MD[m].outs)) /\ WellFormed(MD[m].ins, MD[m].outs)
UniqueNames == \A m \in Mods : \A i, j \in 1..Len(MD[m].ord) :
                  i # j => OB[CL[MD[m].ord[i]].o].name # OB[CL[MD[m].ord[j]].o].name
AllNamed == \A m \in Mods : \A o \in Objects(m) : OB[o].name # ""
\* every parameter and buffer of every layer of the model has exactly one key
KeysOnce == \A m \in Mods : Cardinality({ q.k : q \in Keys(m, TRUE) }) = Cardinality(Keys(m, TRUE))
\* the drawing says it all: boxes differ, and the graph can be read off it
DrawingFaithful == \A m \in Mods : LET d == Drawing(m)
  IN /\ Cardinality({ d.box[k] : k \in DOMAIN d.box }) = Cardinality(DOMAIN d.box)
     /\ \A k \in DOMAIN d.box : /\ { q.port : q \in { x \in d.arg : x.k = k } } = 0..(Len(CL[k].in) - 1)
                                /\ \A q \in d.arg : q.k = k => CL[k].in[q.port + 1] = q.p
                                /\ \E q \in d.res : q.k = k /\ PH[q.p].from = k
     /\ \A p \in DOMAIN d.ph : PH[p].from = 0 \/ \E q \in d.res : q.p = p
\* a saved model can be loaded: the state fits the structure it was saved with
Loadable == \A f \in DOMAIN FS : FS[f].k = "model" => Fits(FS[f].src, FS[f].st)
\* what was loaded from a model file is the saved model: same names, types, shapes, wiring and tensors
Isomorphic(a, b) ==
  /\ Len(MD[a].ord) = Len(MD[b].ord) /\ StateOf(a) = StateOf(b)
  /\ [i \in 1..Len(MD[a].ins) |-> PH[MD[a].ins[i]].sh] = [i \in 1..Len(MD[b].ins) |-> PH[MD[b].ins[i]].sh]
  /\ [i \in 1..Len(MD[a].outs) |-> PH[MD[a].outs[i]].sh] = [i \in 1..Len(MD[b].outs) |-> PH[MD[b].outs[i]].sh]
  /\ \A j \in 1..Len(MD[a].ord) : LET x == OB[CL[MD[a].ord[j]].o]  y == OB[CL[MD[b].ord[j]].o]
                                  IN x.name = y.name /\ x.c.kind = y.c.kind /\ Attrs(x.c) = Attrs(y.c)
LoadFaithful == [][\A f \in DOMAIN FS : (hist' # hist /\ hist'[Len(hist')].op = "load" /\ hist'[Len(hist')].ok /\ hist'[Len(hist')].f = f)
                      => \E a \in {FS[f].src}, b \in {Len(MD) + 1} : Isomorphic(a, b)']_vars
\* separate layers: loading or building never touches existing layers' tensors
OldLayersKept == [][\A o \in 1..Len(OB) : (hist' # hist /\ hist'[Len(hist')].op \in {"load", "fromcfg", "build", "input", "layer", "again"})
                      => OB'[o].P = OB[o].P /\ OB'[o].B = OB[o].B]_vars
Emit == done => PrintT("GEN " \o ToJson(hist))
=============================================================================
