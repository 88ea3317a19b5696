------------------------------ MODULE InitSpec ------------------------------
(* Initializers: what each may leave in a tensor.  Values times 2^16 (Xavier: *)
(* times 2^20); a and b (bounds, constants) in 1/16.                          *)
EXTENDS Num
CONSTANT Limits     \* limits of Xavier initialisation accepted: "glorot", and "flat" for a recorded deviation
VARIABLES last,     \* contents left by the last random initialisation
          filled    \* contents of the tensor just initialised
ivars == <<last, filled>>
A16(a) == a * 4096
Fan(sh) == IF Len(sh) = 2 THEN sh[1] + sh[2] ELSE sh[1] + Prod(sh) \div sh[1]
\* floor of sqrt(6 / fan) * 2^12
Glorot12(sh) == Isqrt((6 * 16777216) \div Fan(sh))
Lim(op, which) == CASE op.how = "uniform"   -> 0
                    [] which = "glorot"     -> Glorot12(op.sh) * 256 + 256
                    [] which = "flat"       -> 2568487 \div Fan(op.sh) + 2          \* sqrt(6) / fan
Lo(op, which) == IF op.how = "uniform" THEN (IF op.def THEN 0 ELSE A16(op.a)) ELSE -Lim(op, which)
Hi(op, which) == IF op.how = "uniform" THEN (IF op.def THEN 65536 ELSE A16(op.b)) ELSE Lim(op, which)
Random(op) == op.how \in {"uniform", "xavier"}
\* statistics of a large sample over lo..hi; every bound is at least 8 standard deviations wide
Mid(lo, hi)  == (hi + lo) \div 2
Half(lo, hi) == Max2(1, (hi - lo) \div 2)
Even(n, q) ==
  LET rn  == Isqrt(n) + 1
      qt(a, b) == Cardinality({ i \in 1..n : q[i] >= a /\ q[i] < b })
      big(c) == Abs(c * 4 - n) <= 4 * 4 * rn                        \* sd of a quarter count is 0.433 sqrt n
  IN /\ ~\A i \in 1..n : q[i] <= 230
     /\ ~\A i \in 1..n : q[i] >= -230
     /\ Abs(SumSeq(q)) <= 8 * 150 * rn
     /\ Abs(FoldLeft(LAMBDA a, x : a + x * x, 0, q) - n * 21845) <= 8 * 20500 * rn
     /\ Abs(SumF(LAMBDA i : q[i] * q[i + 1], n - 1)) <= 8 * 21845 * rn
     /\ big(qt(-300, -128)) /\ big(qt(-128, 0)) /\ big(qt(0, 128)) /\ big(qt(128, 300))
\* (\E over a singleton makes TLC evaluate the sequence once)
Spread(lo, hi, v) ==
  \E m \in {Mid(lo, hi)}, h \in {Half(lo, hi)} :
  \E q \in {[i \in 1..Len(v) |-> QDiv((v[i] - m) * 256, h)]} :      \* position within the range, -256..256
    Even(Len(v), q)
\* values drawn independently coincide (also in absolute value) about as often as chance has it
Coincide(n, D, c) == LET e == (n * n) \div (2 * D) + 1 IN n - c <= e + 8 * (Isqrt(e) + 1) + 8
Independent(lo, hi, v) ==
  \E n \in {Len(v)}, m \in {Mid(lo, hi)} :
    /\ Coincide(n, hi - lo, Cardinality({ v[i] : i \in 1..n }))
    /\ Coincide(n, (hi - lo) \div 2, Cardinality({ Abs(v[i] - m) : i \in 1..n }))
UniformlyIn(lo, hi, v) ==
  /\ \A i \in 1..Len(v) : IsNum(v[i]) /\ v[i] >= lo /\ v[i] <= hi
  /\ (Len(v) >= 1000 /\ hi - lo >= 1024) => Spread(lo, hi, v)
  /\ (Len(v) >= 1000 /\ hi - lo >= 16384) => Independent(lo, hi, v)
  \* not the same numbers again
  /\ (Len(v) >= 1000 /\ hi - lo >= 1024 /\ Len(last) >= 1000) => ~\A i \in 1..Min2(Len(v), Len(last)) : v[i] = last[i]
Uniformly(op, v0) == ~\A w \in (IF op.how = "xavier" THEN Limits ELSE {"glorot"}) :
                       ~\E lo \in {Lo(op, w)}, hi \in {Hi(op, w)}, v \in {v0} : UniformlyIn(lo, hi, v)
Allowed(op, v) == /\ Len(v) = Prod(op.sh)
                  /\ CASE op.how = "zeros"    -> \A i \in 1..Len(v) : v[i] = 0
                       [] op.how = "constant" -> \A i \in 1..Len(v) : v[i] = A16(op.a)
                       [] OTHER               -> Uniformly(op, v)
Initialise(op, v) == /\ Allowed(op, v) /\ filled' = v
                     /\ last' = IF Random(op) THEN v ELSE last
=============================================================================
