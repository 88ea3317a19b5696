----------------------------- MODULE Tr_Sample ------------------------------
EXTENDS SampleSpec, Trace
SameAs(k, x, v) == Len(v) = Size(k) /\ \A e \in 1..Len(v) : v[e] = Elem(k, x, e)
TWrite == IsOp /\ Ev.op = "write" /\ Write(Ev.t, Ev.items, ToSet(Ev.dirs))
TOpen == /\ IsOp /\ Ev.op = "open" /\ Open(Ev.k, Ev.t)
         /\ Ev.r.err = (IF sout'.k = "refused" THEN 1 ELSE 0)
         /\ sout'.k = "open" => /\ Ev.r.n = sout'.n /\ Prod(Ev.r.xs) = Size(Kind) /\ Ev.r.ys = <<1>>
                                /\ Ev.r.xs = (IF Kind \in {"cifar10", "cifar100"} THEN <<3, 32, 32>> ELSE <<Size(Kind)>>)
TPull == /\ IsOp /\ Ev.op = "pull" /\ Ev.k \in DOMAIN D /\ Ev.r.guards = 0
         /\ \E m \in 1..Len(D[Ev.k].rows) :
              LET x == D[Ev.k].rows[m]
              IN /\ IF x.how = "odd" THEN Ev.r.err = 1 ELSE Ev.r.err = 0 /\ SameAs(Kind, x, Ev.r.x)
                 /\ Pull(Ev.k, Ev.i, m, Ev.r.y)
\* a call on a data set that could not be opened isn't made
TSkip == IsOp /\ Ev.op = "pull" /\ Ev.k \notin DOMAIN D /\ Ev.r.err = 9 /\ UNCHANGED savars
Kinds(ls) == [i \in 1..Len(ls) |-> ls[i].t]
Vals(ls, t) == SelectSeq(ls, LAMBDA x : x.t = t)
N(t) == Len(Rows(t))
TTrain ==
  LET ls == Ev.r.ls
      accs == Vals(ls, "acc")
      eps == Vals(ls, "epoch")
      los == Vals(ls, "loss")
  IN /\ IsOp /\ Ev.op = "train" /\ Ev.r.rc = 0
     /\ Kinds(ls) = TrainKinds(N(Ev.tr), Ev.batch, Ev.freq, Ev.epochs)
     /\ \A i \in 1..Len(eps) : eps[i].v = i - 1
     /\ \A i \in 1..Len(los) : IsNum(los[i].v) /\ los[i].v >= 0
     /\ \A i \in 1..Len(accs) : IsAcc(accs[i].v, N(Ev.te), Ev.batch)
     /\ Train(Ev.f, Ev.te, Ev.batch, accs[Len(accs)].v)
TTest ==
  /\ IsOp /\ Ev.op = "test" /\ Ev.r.rc = 0 /\ Kinds(Ev.r.ls) = <<"acc">>
  /\ Test(Ev.f, Ev.te, Ev.batch) /\ Ev.r.ls[1].v = sout'.acc
TInit == l = 1 /\ Begin("none")
TBegin == IsBegin /\ Kind' = Ev.kind /\ Trees' = << >> /\ D' = << >> /\ Lab' = << >> /\ Names' = {} /\ Models' = << >> /\ sout' = [k |-> "none"]
TEnd == IsEnd /\ UNCHANGED savars
TNext == TBegin \/ TWrite \/ TOpen \/ TPull \/ TSkip \/ TTrain \/ TTest \/ TEnd
TSpec == TInit /\ [][TNext]_<<savars, l>>
=============================================================================
