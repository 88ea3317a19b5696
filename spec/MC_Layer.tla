------------------------------ MODULE MC_Layer ------------------------------
(* Design check of LayerSpec: every backward pass is the adjoint (Jacobian    *)
(* transpose) of its forward pass, over a grid of configurations, shapes and  *)
(* data, and a call on one instance leaves the others alone.                  *)
EXTENDS LayerSpec
CONSTANTS KindSet, MaxSteps
VARIABLES n, lasti

Pat(k, len, lo, hi) == [i \in 1..len |-> lo + ((i * 7 + k * 13 + i * i * (k + 2)) % (hi - lo + 1))]

Pairs(a, b) == { <<u, v>> : u \in a, v \in b }
Geo == { [k |-> k, p |-> p, s |-> s] : k \in Pairs(1..3, 1..2), p \in Pairs(0..1, 0..1), s \in Pairs(1..2, 1..3) }
GeoOK(g, h, w) == g.p[1] < g.k[1] /\ g.p[2] < g.k[2] /\ h + 2 * g.p[1] >= g.k[1] /\ w + 2 * g.p[2] >= g.k[2]
Cfgs(kind) ==
  CASE kind = "Linear" -> { [kind |-> kind, units |-> u] : u \in 1..3 }
    [] kind = "Convolution" -> { [kind |-> kind, co |-> co, k |-> g.k, p |-> g.p, s |-> g.s] : co \in 1..2, g \in { g \in Geo : GeoOK(g, 3, 4) } }
    [] kind = "MaxPooling" -> { [kind |-> kind, k |-> g.k, p |-> g.p, s |-> g.s] : g \in { g \in Geo : GeoOK(g, 3, 4) } }
    [] kind = "GlobalAvgPooling" -> { [kind |-> kind, gs |-> 4] }
    [] kind \in {"LeakyReLU", "ELU"} -> { [kind |-> kind, a |-> a, as |-> 2] : a \in 1..3 }
    [] kind = "Dropout" -> { [kind |-> kind, pn |-> 8, num |-> 2, den |-> 1, tol |-> 0] }
    [] kind \in {"BatchNorm1D", "BatchNorm2D"} -> { [kind |-> kind, eps |-> 0, al |-> 1, ald |-> 4] }
    [] OTHER -> { [kind |-> kind] }
Shapes(kind) ==
  CASE kind \in {"Linear", "ReLU", "LeakyReLU", "ELU", "Sigmoid", "Add", "Dropout"} -> { <<2, 3>>, <<1, 2, 2>> }
    [] kind = "Softmax" -> { <<2, 3>>, <<3, 1>>, <<1, 4>> }
    [] kind = "BatchNorm1D" -> { <<4, 2>> }
    [] kind = "BatchNorm2D" -> { <<2, 2, 1, 2>> }
    [] kind = "GlobalAvgPooling" -> { <<2, 2, 2, 4>>, <<1, 3, 1, 2>> }
    [] OTHER -> { <<1, 2, 3, 4>>, <<2, 1, 3, 4>> }
\* balanced columns for batch norm: deviations +-a around an integer mean
BNX(k, sh) == [i \in 1..Size(sh) |->
                 LET c == ChOf(i, sh[2], Plane(sh))
                     r == ((i - 1) \div (sh[2] * Plane(sh))) * Plane(sh) + ((i - 1) % Plane(sh))
                 IN c + k + (IF r % 2 = 0 THEN c + 1 ELSE -(c + 1))]
XOf(kind, k, sh) == IF kind \in {"BatchNorm1D", "BatchNorm2D"} THEN BNX(k, sh)
                    ELSE IF kind = "Dropout" THEN Pat(k, Size(sh), 1, 9) ELSE Pat(k, Size(sh), -4, 5)

Init == /\ \E kind \in KindSet : \E c \in Cfgs(kind) : S = << Fresh(c), Fresh(c) >>
        /\ out = NoRes /\ n = 0 /\ lasti = 0
WLen(c, sh) == CASE c.kind = "Linear" -> c.units * Rest(sh) [] c.kind = "Convolution" -> c.co * sh[2] * c.k[1] * c.k[2]
                 [] c.kind \in {"BatchNorm1D", "BatchNorm2D"} -> sh[2] [] OTHER -> 0
BLen(c, sh) == CASE c.kind = "Linear" -> c.units [] c.kind = "Convolution" -> c.co
                 [] c.kind \in {"BatchNorm1D", "BatchNorm2D"} -> sh[2] [] OTHER -> 0
Stage == n
Next ==
  /\ n < MaxSteps /\ n' = n + 1
  /\ \E i \in 1..2 :
       LET kind == S[i].c.kind
       IN /\ lasti' = i
          /\ \/ \E sh \in Shapes(kind), k \in 1..2 :                    \* forward with fresh parameters
                  /\ ~S[i].fed
                  /\ LET w == Pat(k, WLen(S[i].c, sh), -2, 3)  b == Pat(k + 1, BLen(S[i].c, sh), -1, 2)
                         s0 == [S[i] EXCEPT !.w = w, !.b = b, !.rm = Pat(k, Len(b), 0, 3), !.rv = Pat(k, Len(b), 0, 3)]
                         al == kind = "Add" /\ k = 2
                         op == [sh |-> sh, x |-> XOf(kind, k, sh), al |-> al,
                                x2 |-> IF al THEN XOf(kind, k, sh) ELSE Pat(k + 2, Size(sh), -4, 5)]
                         kept == { j \in 1..Size(sh) : (j + k) % 2 = 0 }
                         aux == Aux(s0, op)
                         y == FwdY(s0, op, aux, kept)
                     IN /\ out' = [k |-> "fwd", y |-> y, s |-> s0]
                        /\ S' = [S EXCEPT ![i] = [s0 EXCEPT !.sh = op.sh, !.x = op.x, !.x2 = op.x2, !.y = y, !.fed = TRUE, !.al = al,
                                                  !.aux = IF kind = "Dropout" THEN kept ELSE aux]]
             \/ \E k \in 1..2 : S[i].fed /\ Bwd(i, [g |-> Pat(k, Size(OutShape(S[i].c, S[i].sh)), -2, 3)])
Spec == Init /\ [][Next]_<<lvars, n, lasti>>

Dot(a, b) == SumF(LAMBDA j : a[j] * b[j], Len(a))
G(k) == Pat(k, Size(OutShape(out.s.c, out.s.sh)), -2, 3)
\* which of the two gradients was used is recovered from the bias/identity below; the relation holds for both
Adjoint ==
  out.k = "bwd" =>
    LET s == out.s  kind == s.c.kind
    IN \E k \in 1..2 : LET g == G(k) IN
       /\ out.dx = DX(s, g)
       /\ kind \in {"Linear", "Convolution"} =>
            LET yb == Dot(s.y, g) - Dot(s.b, out.db)
            IN yb = Dot(s.x, out.dx) /\ yb = Dot(s.w, out.dw)
       /\ kind \in {"ReLU", "LeakyReLU", "MaxPooling", "Dropout"} =>
            Dot(s.x, out.dx) = Dot(s.y, g)
       /\ kind = "Add" => Dot(s.x, out.dx) + (IF s.al THEN 0 ELSE Dot(s.x2, out.dx)) = Dot(s.y, g)
       /\ kind = "GlobalAvgPooling" => Dot(s.x, out.dx) = Dot(s.y, g)
       /\ kind = "Softmax" => \A r \in 1..s.sh[1] :
            Abs(SumF(LAMBDA j : out.dx[(r - 1) * s.sh[2] + j], s.sh[2])) <= 4 * s.sh[2]
       /\ kind \in {"BatchNorm1D", "BatchNorm2D"} =>
            \A c \in 1..s.sh[2] :
               /\ Abs(ChSum(LAMBDA j : out.dx[j], s.sh[1], c, s.sh[2], Plane(s.sh))) <= 8
               /\ Abs(ChSum(LAMBDA j : out.dx[j] * (s.x[j] - s.aux.mean[c]), s.sh[1], c, s.sh[2], Plane(s.sh))) <= 64
               /\ out.db[c] = ChSum(LAMBDA j : g[j], s.sh[1], c, s.sh[2], Plane(s.sh))
Ranges ==
  out.k = "fwd" =>
    LET kind == out.s.c.kind
    IN /\ kind = "Softmax" =>
            LET sh == CHOOSE sh \in Shapes(kind) : Size(sh) = Len(out.y)
            IN \A i \in 1..Len(out.y) : out.y[i] >= 0 /\ out.y[i] <= 32768
       /\ kind = "Sigmoid" => \A i \in 1..Len(out.y) : out.y[i] >= 0 /\ out.y[i] <= 32768
       /\ kind = "ReLU" => \A i \in 1..Len(out.y) : out.y[i] >= 0
Isolated == [][\A j \in 1..2 : j # lasti' => S'[j] = S[j]]_<<lvars, n, lasti>>
=============================================================================
