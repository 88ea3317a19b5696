----------------------------- MODULE Tr_Loader ------------------------------
EXTENDS LoaderSpec, Trace
VARIABLES nx, ny,        \* elements per sample of X and y
          cnt            \* loader -> group of batches -> [n |-> batches, c |-> index -> times delivered];
                         \* groups: every batch of an epoch by its place, all (-1), all but the first (-2), all but the last (-3)
allv == <<ldvars, nx, ny, cnt>>

XVal(i, j) == i * 64 + j - 1
YVal(i, j) == 100000 + i * 8 + j - 1
DataOK(r, k, idx) ==
  LET b == L[k].b
  IN /\ Len(r.x) = b * nx[k] /\ Len(r.y) = b * ny[k]
     /\ \A i \in 1..b : /\ \A j \in 1..nx[k] : r.x[(i - 1) * nx[k] + j] = XVal(idx[i], j)
                        /\ \A j \in 1..ny[k] : r.y[(i - 1) * ny[k] + j] = YVal(idx[i], j)
Bad(t) == t \in {"badx", "bady", "badboth"}
Places(x) == x.n \div x.b
InGroup(g, pl, x) == g = pl \/ g = -1 \/ (g = -2 /\ pl > 0) \/ (g = -3 /\ pl < Places(x) - 1)
Groups(x) == IF x.n > 40 THEN {-1} ELSE {-1, -2, -3} \cup (0..(Places(x) - 1))
Count(ct, x, idx) ==
  LET pl == x.pos \div x.b
      got == { idx[j] : j \in 1..Len(idx) }
  IN [g \in DOMAIN ct |-> IF ~InGroup(g, pl, x) THEN ct[g]
        ELSE [n |-> ct[g].n + 1, c |-> TLCEval([i \in DOMAIN ct[g].c |-> ct[g].c[i] + (IF i \in got THEN 1 ELSE 0)])]]
TPull ==
  LET r == Ev.r  k == Ev.k
  IN /\ IsOp /\ Ev.op = "pull"
     /\ r.sliceok /\ r.guards = 0
     /\ IF Bad(Ev.t) THEN r.err = 1 /\ Len(r.calls) = 0 /\ r.kept /\ Refuse(k) /\ UNCHANGED <<nx, ny, cnt>>
        ELSE IF HasBatch(L[k]) /\ Ev.f > 0
             THEN r.err = 1 /\ Fail(k, r.calls, Ev.f) /\ UNCHANGED <<nx, ny, cnt>>
        ELSE IF HasBatch(L[k])
             THEN /\ r.err = 0 /\ r.ret /\ r.xsh /\ r.ysh /\ r.stay
                  /\ Batch(k, r.calls) /\ DataOK(r, k, r.calls)
                  /\ cnt' = [cnt EXCEPT ![k] = Count(cnt[k], L[k], r.calls)]
                  /\ UNCHANGED <<nx, ny>>
             ELSE /\ r.err = 0 /\ ~r.ret /\ Len(r.calls) = 0 /\ r.kept /\ r.stay
                  /\ EpochEnd(k) /\ UNCHANGED <<nx, ny, cnt>>
\* over many batches every item is delivered about equally often (7 standard deviations), in every place of an epoch
Even(ct, x) == ct.n < 100 \/ \A i \in 0..(x.n - 1) :
                 Abs(ct.c[i] * x.n - ct.n * x.b) <= 7 * (Isqrt(ct.n * x.b * (x.n - x.b)) + 1) + x.n
Uniform(k) == L[k].sh => \A g \in DOMAIN cnt[k] : Even(cnt[k][g], L[k])
TInit == l = 1 /\ L = << >> /\ lout = [k |-> "none"] /\ nx = << >> /\ ny = << >> /\ cnt = << >>
TBegin == /\ IsBegin /\ lout' = [k |-> "none"]
          /\ L' = [k \in 1..Len(Ev.ld) |-> NewLoader(Ev.ld[k].n, Ev.ld[k].b, Ev.ld[k].sh)]
          /\ nx' = [k \in 1..Len(Ev.ld) |-> Prod(Ev.ld[k].xs)] /\ ny' = [k \in 1..Len(Ev.ld) |-> Prod(Ev.ld[k].ys)]
          /\ cnt' = [k \in 1..Len(Ev.ld) |-> [g \in (IF Ev.ld[k].sh THEN Groups(Ev.ld[k]) ELSE {}) |-> [n |-> 0, c |-> [i \in 0..(Ev.ld[k].n - 1) |-> 0]]]]
TEnd == IsEnd /\ (\A k \in DOMAIN L : Uniform(k)) /\ UNCHANGED allv
TNext == TBegin \/ TPull \/ TEnd
TSpec == TInit /\ [][TNext]_<<allv, l>>
=============================================================================
