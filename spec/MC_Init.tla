------------------------------ MODULE MC_Init -------------------------------
(* Histories of initialisations.  The design check confirms that ideal fills  *)
(* (an even comb over the range) satisfy the acceptance conditions and that   *)
(* constant, half-range and shifted fills do not.                             *)
EXTENDS InitSpec, Json
CONSTANTS MaxLen, Hows, Which
VARIABLES hist, done
vars == <<ivars, hist, done>>
ShSet == IF Which = "mc" THEN {<<32, 32>>, <<1024>>, <<4, 16, 4, 4>>, <<2, 3>>}
         ELSE {<<2, 3>>, <<4>>, <<1, 1>>, <<3, 2, 2>>, <<2, 3, 1, 2>>, <<40, 30>>, <<1100>>, <<2, 2, 17, 19>>}
\* a deterministic full-period scramble standing in for an ideal random sample
CombIn(lo, hi, n) == IF n < 1000 THEN [i \in 1..n |-> lo]
                     ELSE TLCEval([i \in 1..n |-> lo + ((((i * 217) % n) * 32 + 8) * ((hi - lo) \div 64)) \div (n \div 2)])
Comb(op, n) == CombIn(TLCEval(Lo(op, "glorot")), TLCEval(Hi(op, "glorot")), n)
Ideal(op) == LET n == Prod(op.sh) IN
             CASE op.how = "zeros" -> [i \in 1..n |-> 0] [] op.how = "constant" -> [i \in 1..n |-> A16(op.a)] [] OTHER -> Comb(op, n)
Op(h, sh, a, b) == [op |-> "init", how |-> h, sh |-> sh, a |-> a, b |-> b, def |-> FALSE]
Init == last = << >> /\ filled = << >> /\ hist = << >> /\ done = FALSE
Inits == \E h \in Hows, sh \in ShSet, a \in {-3, 0, 16} :
           LET o == Op(h, sh, a, a + 40) IN
             /\ filled' = Ideal(o) /\ hist' = Append(hist, o) /\ UNCHANGED last
Act == Len(hist) < MaxLen /\ UNCHANGED done /\ Inits
Finish == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<ivars, hist>>
Next == Act \/ Finish
Spec == Init /\ [][Next]_vars
Cur == hist[Len(hist)]
View == <<filled, Len(hist)>>
IdealAllowed == Len(hist) > 0 => Allowed(Cur, filled)
FakesRefused == (Len(hist) > 0 /\ Random(Cur) /\ Len(filled) >= 1000 /\ Hi(Cur, "glorot") - Lo(Cur, "glorot") >= 1024) =>
  LET n == Len(filled)  m == Mid(Lo(Cur, "glorot"), Hi(Cur, "glorot"))
  IN /\ ~Allowed(Cur, TLCEval([i \in 1..n |-> 0]))
     /\ ~Allowed(Cur, TLCEval([i \in 1..n |-> (filled[i] + m) \div 2]))              \* half the range
     /\ ~Allowed(Cur, TLCEval([i \in 1..n |-> m + Abs(filled[i] - m)]))               \* one side only
     /\ ~Allowed(Cur, TLCEval([i \in 1..n |-> filled[i] + Half(Lo(Cur, "glorot"), Hi(Cur, "glorot")) \div 4]))         \* shifted
     /\ ~Allowed(Cur, TLCEval([i \in 1..n |-> filled[((i + 1) \div 2) * 2 - 1 ]]))    \* pairs repeated
     /\ Hi(Cur, "glorot") - Lo(Cur, "glorot") >= 16384 =>
          /\ ~Allowed(Cur, TLCEval([i \in 1..n |-> filled[((i - 1) % (n \div 2)) + 1]]))   \* one half repeated
          /\ ~Allowed(Cur, TLCEval([i \in 1..n |-> IF i > n \div 2 THEN 2 * m - filled[i - n \div 2] ELSE filled[i]]))   \* mirrored
     /\ ~Allowed(Cur, Append(filled, filled[1]))
Emit == done => PrintT("GEN " \o ToJson(hist))
=============================================================================
