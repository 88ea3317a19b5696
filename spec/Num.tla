-------------------------------- MODULE Num --------------------------------
(* Shared vocabulary of every deepworks specification module: integers are  *)
(* fixed-point images of float32 values (value * 2^S), plus reserved codes  *)
(* for values the driver could not represent.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

UNKNOWN == 2000000000   \* spec side: an uninitialised element, anything matches
NANCODE == 2000000001   \* logged: not a number
PINF    == 2000000002   \* logged: +infinity
NINF    == 2000000003   \* logged: -infinity
INEXACT == 2000000004   \* logged: not an integer multiple of the unit
BIG     == 2000000005   \* logged: out of the fixed-point range

IsNum(v) == v > -1500000000 /\ v < 1500000000

Abs(x)    == IF x < 0 THEN -x ELSE x
Max2(a,b) == IF a > b THEN a ELSE b
Min2(a,b) == IF a < b THEN a ELSE b

\* 1..n as a sequence (cheap to fold over)
Idx(n) == [i \in 1..n |-> i]

\* sum of f(1) + ... + f(n)
SumF(f(_), n) == FoldLeft(LAMBDA a, i : a + f(i), 0, Idx(n))
SumSeq(s)     == FoldLeft(LAMBDA a, x : a + x, 0, s)
Prod(s)       == FoldLeft(LAMBDA a, x : a * x, 1, s)

Pow2T == [k \in 0..30 |-> 2^k]
Pow2(k) == Pow2T[k]

\* round-to-nearest quotient a/b, b > 0
RDiv(a, b) == (2*a + b) \div (2*b)
\* floor square root, bit by bit (folds, not recursion: TLC evaluates them eagerly)
Isqrt(n) == FoldLeft(LAMBDA a, b : IF n \div (a + b) >= a + b THEN a + b ELSE a, 0,
                     <<32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>)

\* a/b for 0 <= a, 0 < b < 2^30, with k fractional bits (long division)
FracBits(r, b, k) == FoldLeft(LAMBDA s, i : IF 2 * s[1] >= b THEN <<2 * s[1] - b, 2 * s[2] + 1>> ELSE <<2 * s[1], 2 * s[2]>>,
                              <<r, 0>>, Idx(k))[2]
DivPos(a, b, k) == (a \div b) * Pow2(k) + FracBits(a % b, b, k)
DivFix(a, b, k) == IF a < 0 THEN -DivPos(-a, b, k) ELSE DivPos(a, b, k)
\* quotient rounded to nearest without doubling the numerator
QDiv(a, b) == IF a < 0 THEN -((-a + b \div 2) \div b) ELSE (a + b \div 2) \div b

\* |logged - expected| <= tol, for a logged number
Near(logged, expected, tol) == IsNum(logged) /\ Abs(logged - expected) <= tol

\* elementwise comparison of a logged sequence with an expected element function
SeqIs(s, n, f(_))        == Len(s) = n /\ \A i \in 1..n : s[i] = f(i)
SeqNear(s, n, f(_), tol) == Len(s) = n /\ \A i \in 1..n : Near(s[i], f(i), tol)
=============================================================================
