------------------------------- MODULE MC_Opt -------------------------------
EXTENDS OptSpec, Json
CONSTANTS MaxLen, Conf, PNames, GradPats, LrSet
VARIABLES hist, done, last

\* configurations of two optimizers over the same parameters
Sgd(ps) == [kind |-> "sgd", ps |-> ps, lr |-> 16]
Mom(ps, gn, gd) == [kind |-> "mom", ps |-> ps, lr |-> 16, gn |-> gn, gd |-> gd]
Adam(ps, t0) == [kind |-> "adam", ps |-> ps, lr |-> 8, b1n |-> 1, b1d |-> 2, b2n |-> 3, b2d |-> 4, eps12 |-> 2048, t0 |-> t0]
Confs == [sgd  |-> {<<Sgd(PNames)>>},
          mom  |-> {<<Mom(PNames, 1, 2), Sgd({CHOOSE p \in PNames : TRUE})>>},
          adam |-> {<<Adam(PNames, 0)>>, <<Adam(PNames, 2)>>}]
Pat(k, n) == [i \in 1..n |-> ((i * 5 + k * 3) % 7) - 3]
Init == /\ P = [p \in PNames |-> [w |-> [i \in 1..2 |-> W16 * i], g |-> <<0, 0>>, t |-> TRUE]]
        /\ \E c \in Confs[Conf] : O = [k \in 1..Len(c) |-> NewOpt(c[k])]
        /\ oerr = 0 /\ hist = << >> /\ done = FALSE /\ last = [op |-> "init"]
Take(op) == Do(op) /\ hist' = Append(hist, op) /\ last' = op
Steps  == \E k \in DOMAIN O : Take([op |-> "step", k |-> k])
Lrs    == \E k \in DOMAIN O, r \in LrSet : Take([op |-> "lr", k |-> k, lr |-> r])
Grads  == \E p \in PNames, d \in GradPats : Take([op |-> "grad", p |-> p, g |-> Pat(d, 2)])
Freezes == \E p \in PNames : Take([op |-> "freeze", p |-> p, t |-> ~P[p].t])
Sets == Take([op |-> "set", w |-> [p \in PNames |-> <<3, -2>>]])
Go == Len(hist) < MaxLen /\ UNCHANGED done
Finish == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<ovars, hist, last>>
\* one disjunct per kind of call: TLC simulation first picks the kind, then the call
Next ==
  \/ Go /\ Steps
  \/ Go /\ Steps
  \/ Go /\ Steps
  \/ Go /\ Lrs
  \/ Go /\ Grads
  \/ Go /\ Freezes
  \/ Go /\ Sets
  \/ Finish
Spec == Init /\ [][Next]_<<ovars, hist, done, last>>
View == <<ovars, Len(hist), last.op>>

\* a frozen parameter is never moved, nor are its moments
FrozenStays == [][last'.op = "step" => \A p \in PNames :
                    ~P[p].t => /\ P'[p].w = P[p].w
                               /\ \A k \in DOMAIN O : p \in O[k].c.ps =>
                                    O'[k].v[p] = O[k].v[p] /\ O'[k].m[p] = O[k].m[p] /\ O'[k].s[p] = O[k].s[p]]_<<ovars, hist, done, last>>
\* only a step moves weights, and it never touches gradients, modes or learning rates
OnlySteps == [][ /\ last'.op \notin {"step", "set"} => \A p \in PNames : P'[p].w = P[p].w
                 /\ last'.op = "step" => \A p \in PNames : P'[p].g = P[p].g /\ P'[p].t = P[p].t
                 /\ last'.op = "step" => \A k \in DOMAIN O : O'[k].lr = O[k].lr
                 /\ last'.op = "set" => /\ \A p \in PNames : P'[p].g = P[p].g /\ P'[p].t = P[p].t
                                        /\ \A k \in DOMAIN O : O'[k].v = O[k].v /\ O'[k].m = O[k].m /\ O'[k].s = O[k].s /\ O'[k].lr = O[k].lr ]_<<ovars, hist, done, last>>
\* a zero gradient with zero moments moves nothing; SGD and Adam move against the gradient on a first step
Descent == [][ (hist' # hist /\ last'.op = "step") => \A p \in O[last'.k].c.ps : \A i \in 1..2 :
                 LET o == O[last'.k]  d == P'[p].w[i] - P[p].w[i] IN
                 /\ (P[p].g[i] = 0 /\ o.v[p][i] = 0 /\ o.m[p][i] = 0) => d = 0
                 /\ (o.c.kind = "sgd" /\ P[p].t /\ o.lr > 0) => (P[p].g[i] > 0 <=> d < 0) /\ (P[p].g[i] < 0 <=> d > 0)
             ]_<<ovars, hist, done, last>>
\* Adam's step is bounded by lr * |mhat| / eps and, with fresh moments, close to lr
AdamFirst == [][ (hist' # hist /\ last'.op = "step" /\ O[last'.k].c.kind = "adam") =>
                 LET o == O[last'.k] IN \A p \in o.c.ps : \A i \in 1..2 :
                   (P[p].t /\ o.m[p][i] = 0 /\ o.s[p][i] = 0 /\ o.c.t0 = 0 /\ o.p1 = One1 /\ P[p].g[i] # 0) =>
                     LET g == Abs(P[p].g[i]) IN
                     Abs(Abs(P'[p].w[i] - P[p].w[i]) - QDiv(o.lr * 1024 * g * 4096, g * 4096 + o.c.eps12)) <= 64
               ]_<<ovars, hist, done, last>>
Emit == done => PrintT("GEN " \o ToJson(hist))
=============================================================================
