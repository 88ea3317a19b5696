------------------------------ MODULE OptSpec -------------------------------
(* Optimizers over a shared map of parameters.  All values are integers:      *)
(* weights, velocities and steps times 2^16, learning rates times 64,         *)
(* gradients plain integers.                                                  *)
EXTENDS Num

VARIABLES P,      \* parameter -> [w, g, t]: value (2^16), gradient, trainable
          O,      \* optimizer -> state record
          oerr    \* 1 iff the last call was refused
ovars == <<P, O, oerr>>

W16 == 65536

\* c: kind "sgd" | "mom" | "adam", ps: its parameters, lr (1/64), gn/gd momentum,
\*    b1n/b1d, b2n/b2d betas, eps12 epsilon * 2^12, t0 first iteration number
RECURSIVE PowFix(_, _, _, _)
PowFix(n, d, t, one) == IF t = 0 THEN one ELSE QDiv(PowFix(n, d, t - 1, one) * n, d)
One1 == 65536
One2 == 1048576
NewOpt(c) ==
  LET z == [p \in c.ps |-> [i \in 1..Len(P[p].w) |-> 0]]
  IN [c |-> c, lr |-> c.lr, v |-> z, m |-> z, s |-> z, tol |-> 0, inc |-> 0,
      p1 |-> IF c.kind = "adam" THEN PowFix(c.b1n, c.b1d, c.t0, One1) ELSE 0,
      p2 |-> IF c.kind = "adam" THEN PowFix(c.b2n, c.b2d, c.t0, One2) ELSE 0]

\* one parameter element under each rule: the amount subtracted, times 2^16
SgdStep(lr, g) == lr * g * 1024
MomV(o, v, g)  == QDiv(v * o.c.gn, o.c.gd) + o.lr * g * 1024
AdamM(o, m, g) == QDiv(m * o.c.b1n + (o.c.b1d - o.c.b1n) * g * One1, o.c.b1d)
AdamS(o, s, g) == QDiv(s * o.c.b2n + (o.c.b2d - o.c.b2n) * g * g * One2, o.c.b2d)
AdamStep(o, m, s) ==
  LET mh == DivFix(m, One1 - o.p1, 12)                 \* 2^12
      sh == Isqrt(DivFix(s, One2 - o.p2, 24))          \* 2^12
  IN IF m = 0 THEN 0 ELSE QDiv(mh * o.lr * 1024, sh + o.c.eps12)

StepSgd(k, o) ==
  /\ P' = [p \in DOMAIN P |-> IF p \in o.c.ps /\ P[p].t
             THEN [P[p] EXCEPT !.w = [i \in 1..Len(@) |-> @[i] - SgdStep(o.lr, P[p].g[i])]] ELSE P[p]]
  /\ UNCHANGED O
StepMom(k, o) ==
  LET nv == TLCEval([p \in o.c.ps |-> IF P[p].t THEN [i \in 1..Len(P[p].w) |-> MomV(o, o.v[p][i], P[p].g[i])] ELSE o.v[p]])
  IN /\ O' = [O EXCEPT ![k].v = nv, ![k].tol = @ + 2 + o.inc]
     /\ P' = [p \in DOMAIN P |-> IF p \in o.c.ps /\ P[p].t
             THEN [P[p] EXCEPT !.w = [i \in 1..Len(@) |-> @[i] - nv[p][i]]] ELSE P[p]]
StepAdam(k, o0) ==
  LET o  == [o0 EXCEPT !.p1 = QDiv(@ * o0.c.b1n, o0.c.b1d), !.p2 = QDiv(@ * o0.c.b2n, o0.c.b2d)]
      on(p) == P[p].t
      nm == TLCEval([p \in o.c.ps |-> IF on(p) THEN [i \in 1..Len(P[p].w) |-> AdamM(o, o.m[p][i], P[p].g[i])] ELSE o.m[p]])
      ns == TLCEval([p \in o.c.ps |-> IF on(p) THEN [i \in 1..Len(P[p].w) |-> AdamS(o, o.s[p][i], P[p].g[i])] ELSE o.s[p]])
      st == TLCEval([p \in o.c.ps |-> [i \in 1..Len(P[p].w) |-> IF on(p) THEN AdamStep(o, nm[p][i], ns[p][i]) ELSE 0]])
      big == TLCEval(FoldLeft(LAMBDA a, p : FoldLeft(LAMBDA b, x : Max2(b, Abs(x)), a, st[p]), 0, SetToSeq(o.c.ps)))
  IN /\ O' = [O EXCEPT ![k] = [o EXCEPT !.m = nm, !.s = ns, !.tol = @ + 6 + o.inc + big \div 128]]
     /\ P' = [p \in DOMAIN P |-> IF p \in o.c.ps /\ P[p].t
             THEN [P[p] EXCEPT !.w = [i \in 1..Len(@) |-> @[i] - st[p][i]]] ELSE P[p]]
Step(k) ==
  LET o == O[k]
  IN /\ oerr' = 0
     /\ CASE o.c.kind = "sgd" -> StepSgd(k, o)
          [] o.c.kind = "mom" -> StepMom(k, o)
          [] o.c.kind = "adam" -> StepAdam(k, o)
SetLr(k, lr)  == O' = [O EXCEPT ![k].lr = lr] /\ UNCHANGED P /\ oerr' = 0
SetG(p, g)    == P' = [P EXCEPT ![p].g = g] /\ UNCHANGED O /\ oerr' = 0
\* the user overwrites all weights: nothing but the weights changes, and their accumulated error is gone; what
\* remains is the error of the velocities and moments, at most 1 / (1 - beta) units and a float32 rounding per step
SetW(w)       == /\ P' = [p \in DOMAIN P |-> [P[p] EXCEPT !.w = [i \in 1..Len(w[p]) |-> w[p][i] * W16]]]
                 /\ O' = [k \in DOMAIN O |-> [O[k] EXCEPT !.tol = 0, !.inc = IF O[k].c.kind = "sgd" THEN 0 ELSE 24]]
                 /\ oerr' = 0
Freeze(p, t)  == P' = [P EXCEPT ![p].t = t] /\ UNCHANGED O /\ oerr' = 0

Do(op) == CASE op.op = "step" -> Step(op.k)
            [] op.op = "lr" -> SetLr(op.k, op.lr)
            [] op.op = "grad" -> SetG(op.p, op.g)
            [] op.op = "set" -> SetW(op.w)
            [] op.op = "freeze" -> Freeze(op.p, op.t)
=============================================================================
