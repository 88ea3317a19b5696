------------------------------ MODULE Tr_Shape ------------------------------
EXTENDS ShapeSpec, Trace
\* a parameter's first contents
Fan(sh) == IF Len(sh) = 2 THEN sh[1] + sh[2] ELSE sh[1] + Prod(sh) \div sh[1]
StartOK(q, p) ==
  CASE p.i = "zero" -> q.zero
    [] p.i = "one"  -> q.one
    [] p.i = "xavier" -> /\ IsNum(q.max) /\ q.max <= (Isqrt((6 * 16777216) \div Fan(p.sh)) + 1) * 16 + 16
                         /\ Prod(p.sh) >= 8 => q.vary /\ ~q.zero
SeqSet(s) == { s[i] : i \in 1..Len(s) }
Match(log, spec, isp) ==
  /\ Len(log) = Cardinality(spec)
  /\ { log[i].n : i \in 1..Len(log) } = { p.n : p \in spec }
  /\ \A i \in 1..Len(log) : LET p == CHOOSE p \in spec : p.n = log[i].n
       IN log[i].sh = p.sh /\ StartOK(log[i], p) /\ (isp => log[i].g = "zero" /\ log[i].t)
Complete(e) == ~("drop" \in DOMAIN e.c) \/ e.c.drop = ""
Known == {"Linear", "Convolution", "MaxPooling", "GlobalAvgPooling", "ReLU", "LeakyReLU", "ELU", "Sigmoid", "Softmax", "Dropout",
          "BatchNorm1D", "BatchNorm2D", "Add"}
OutOK(r) == LET o == OB'[shout'.o]
            IN /\ r.err = 0 /\ r.link /\ r.stay
               /\ r.sh = PH'[Len(PH')].sh
               /\ r.type = o.c.kind /\ r.name = o.c.name
               /\ Match(r.P, o.P, TRUE) /\ Match(r.B, o.B, FALSE) /\ AttrMatch(r.A, Attrs(o.c))
ErrOK(e) == e.r.err = 1 /\ (e.op = "apply" => e.r.np = Cardinality(OB[e.o].P) + Cardinality(OB[e.o].B))
TOp == /\ IsOp
       /\ CASE Ev.op = "input" -> Input(Ev.sh) /\ Ev.r.err = 0 /\ Ev.r.sh = Ev.sh
            [] Ev.op = "new"   -> New(Ev.c) /\ Ev.r.err = 0
            [] Ev.op = "apply" -> Apply(Ev.o, Ev.in) /\ IF shout'.k = "out" THEN OutOK(Ev.r) ELSE ErrOK(Ev)
            [] Ev.op = "make"  -> /\ Make(Ev.c, Ev.in, Complete(Ev) /\ Ev.c.kind \in Known)
                                  /\ IF shout'.k = "out" THEN OutOK(Ev.r) ELSE ErrOK(Ev)
TInit == l = 1 /\ PH = << >> /\ OB = << >> /\ shout = [k |-> "none"]
TBegin == IsBegin /\ PH' = << >> /\ OB' = << >> /\ shout' = [k |-> "none"]
TEnd == IsEnd /\ UNCHANGED shvars
TNext == TBegin \/ TOp \/ TEnd
TSpec == TInit /\ [][TNext]_<<shvars, l>>
=============================================================================
