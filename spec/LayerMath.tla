----------------------------- MODULE LayerMath ------------------------------
(* What every deepworks layer computes, forward and backward, over flat      *)
(* row-major sequences of fixed-point integers.                              *)
EXTENDS Num

Rest(shape) == Prod(Tail(shape))        \* elements per sample
OutDim(i, k, p, s) == (i + 2 * p - k) \div s + 1

------------------------------------------------------------------------------
\* Linear: y = x W^T + b      x: N x F, W: U x F, b: U
LinearFwd(x, w, b, N, F, U) ==
  [i \in 1..(N * U) |->
     LET n == (i - 1) \div U  u == (i - 1) % U
     IN b[u + 1] + SumF(LAMBDA f : x[n * F + f] * w[u * F + f], F)]
LinearDX(g, w, N, F, U) ==
  [i \in 1..(N * F) |->
     LET n == (i - 1) \div F  f == (i - 1) % F
     IN SumF(LAMBDA u : g[n * U + u] * w[(u - 1) * F + f + 1], U)]
LinearDW(g, x, N, F, U) ==
  [i \in 1..(U * F) |->
     LET u == (i - 1) \div F  f == (i - 1) % F
     IN SumF(LAMBDA n : g[(n - 1) * U + u + 1] * x[(n - 1) * F + f + 1], N)]
LinearDB(g, N, U) == [u \in 1..U |-> SumF(LAMBDA n : g[(n - 1) * U + u], N)]

------------------------------------------------------------------------------
\* Convolution (cross-correlation), NCHW; k, p, s = <<vertical, horizontal>>
ConvFwd(x, w, b, N, C, H, W, CO, k, p, s) ==
  LET KH == k[1]  KW == k[2]
      OH == OutDim(H, k[1], p[1], s[1])  OW == OutDim(W, k[2], p[2], s[2])
      Q == C * KH * KW
  IN [i \in 1..(N * CO * OH * OW) |->
       LET j == i - 1
           ow == j % OW  oh == (j \div OW) % OH  o == (j \div (OW * OH)) % CO  n == j \div (OW * OH * CO)
           Term(q) == LET kw == (q - 1) % KW  kh == ((q - 1) \div KW) % KH  c == (q - 1) \div (KW * KH)
                          ih == oh * s[1] - p[1] + kh  iw == ow * s[2] - p[2] + kw
                      IN IF ih < 0 \/ ih >= H \/ iw < 0 \/ iw >= W THEN 0
                         ELSE w[o * Q + q] * x[((n * C + c) * H + ih) * W + iw + 1]
       IN b[o + 1] + SumF(Term, Q)]
ConvDX(g, w, N, C, H, W, CO, k, p, s) ==
  LET KH == k[1]  KW == k[2]
      OH == OutDim(H, k[1], p[1], s[1])  OW == OutDim(W, k[2], p[2], s[2])
      Q == C * KH * KW
  IN [i \in 1..(N * C * H * W) |->
       LET j == i - 1
           iw == j % W  ih == (j \div W) % H  c == (j \div (W * H)) % C  n == j \div (W * H * C)
           Term(t) == LET kw == (t - 1) % KW  kh == ((t - 1) \div KW) % KH  o == (t - 1) \div (KW * KH)
                          ah == ih + p[1] - kh  aw == iw + p[2] - kw
                      IN IF ah < 0 \/ aw < 0 \/ ah % s[1] # 0 \/ aw % s[2] # 0
                            \/ ah \div s[1] >= OH \/ aw \div s[2] >= OW THEN 0
                         ELSE w[o * Q + (c * KH + kh) * KW + kw + 1]
                              * g[((n * CO + o) * OH + ah \div s[1]) * OW + aw \div s[2] + 1]
       IN SumF(Term, CO * KH * KW)]
ConvDW(g, x, N, C, H, W, CO, k, p, s) ==
  LET KH == k[1]  KW == k[2]
      OH == OutDim(H, k[1], p[1], s[1])  OW == OutDim(W, k[2], p[2], s[2])
  IN [i \in 1..(CO * C * KH * KW) |->
       LET j == i - 1
           kw == j % KW  kh == (j \div KW) % KH  c == (j \div (KW * KH)) % C  o == j \div (KW * KH * C)
           Term(t) == LET ow == (t - 1) % OW  oh == ((t - 1) \div OW) % OH  n == (t - 1) \div (OW * OH)
                          ih == oh * s[1] - p[1] + kh  iw == ow * s[2] - p[2] + kw
                      IN IF ih < 0 \/ ih >= H \/ iw < 0 \/ iw >= W THEN 0
                         ELSE g[((n * CO + o) * OH + oh) * OW + ow + 1] * x[((n * C + c) * H + ih) * W + iw + 1]
       IN SumF(Term, N * OH * OW)]
ConvDB(g, N, CO, PL) ==
  [o \in 1..CO |-> SumF(LAMBDA t : g[(((t - 1) \div PL) * CO + o - 1) * PL + ((t - 1) % PL) + 1], N * PL)]

------------------------------------------------------------------------------
\* MaxPooling: position (1-based, flat) of the first maximum of each window in
\* row-major window order; padding is never selected
PoolArg(x, NC, H, W, k, p, s) ==
  LET OH == OutDim(H, k[1], p[1], s[1])  OW == OutDim(W, k[2], p[2], s[2])
  IN [i \in 1..(NC * OH * OW) |->
       LET j == i - 1
           ow == j % OW  oh == (j \div OW) % OH  pl == j \div (OW * OH)
           h0 == oh * s[1] - p[1]  w0 == ow * s[2] - p[2]
           Better(best, t) ==
             LET ih == h0 + (t - 1) \div k[2]  iw == w0 + ((t - 1) % k[2])
                 pos == (pl * H + ih) * W + iw + 1
             IN IF ih < 0 \/ ih >= H \/ iw < 0 \/ iw >= W THEN best
                ELSE IF best = 0 THEN pos
                ELSE IF x[pos] > x[best] THEN pos ELSE best
       IN FoldLeft(Better, 0, Idx(k[1] * k[2]))]
\* gradient of each input position: sum over the windows that selected it
PoolDX(g, arg, NC, H, W, OP) ==
  [i \in 1..(NC * H * W) |->
     LET pl == (i - 1) \div (H * W)
     IN SumF(LAMBDA t : IF arg[pl * OP + t] = i THEN g[pl * OP + t] ELSE 0, OP)]

\* GlobalAvgPooling: sum of a plane (the caller divides by the plane size)
PlaneSum(x, NC, PL) == [i \in 1..NC |-> SumF(LAMBDA t : x[(i - 1) * PL + t], PL)]

------------------------------------------------------------------------------
\* Exponentials.  Arguments are integers q standing for q * ln2/4, so that
\* e^(q ln2/4) = 2^(q/4); Exp16 is that times 2^16, for q <= 0.
Root4 == <<65536, 77936, 92682, 110218>>         \* 2^16 * 2^(f/4)
FloorDiv4(q) == q \div 4                         \* TLA+ \div is floor division
Exp16(q) == LET w == FloorDiv4(q)  f == q - 4 * w
            IN IF w <= -20 THEN 0 ELSE RDiv(Root4[f + 1], Pow2(-w))
\* q * ln2/4 times 2^16
Ln16(q)  == RDiv(q * 45426, 4)

\* logistic function of q * ln2/4, times 2^15
SigNeg15(q) == LET e == Exp16(q) IN RDiv(e * 8192, (65536 + e) \div 4)
Sig15(q) == IF q <= 0 THEN SigNeg15(q) ELSE 32768 - SigNeg15(-q)

\* Softmax of rows of exponents, times 2^15
RowMax(x, o, C) == FoldLeft(LAMBDA m, j : Max2(m, x[o + j]), x[o + 1], Idx(C))
Exp14(q) == RDiv(Exp16(q), 4)
Softmax15(x, N, C) ==
  LET m == TLCEval([n \in 1..N |-> RowMax(x, (n - 1) * C, C)])
      e == TLCEval([i \in 1..(N * C) |-> Exp14(x[i] - m[(i - 1) \div C + 1])])
      z == TLCEval([n \in 1..N |-> SumF(LAMBDA j : e[(n - 1) * C + j], C)])
  IN TLCEval([i \in 1..(N * C) |-> RDiv(e[i] * 32768, z[(i - 1) \div C + 1])])
\* gradient at scale 2^12 for integer output gradients:  y (g - <g, y>)
SoftmaxDX12(y15, g, N, C) ==
  LET k == TLCEval([n \in 1..N |-> SumF(LAMBDA j : g[(n - 1) * C + j] * y15[(n - 1) * C + j], C)])
  IN TLCEval([i \in 1..(N * C) |->
        LET d == RDiv(g[i] * 32768 - k[(i - 1) \div C + 1], 8)     \* 2^12
        IN RDiv(RDiv(y15[i], 8) * d, 4096)])

------------------------------------------------------------------------------
\* BatchNorm: N samples, C channels, P positions per plane (P = 1: BatchNorm1D).
\* Inputs are chosen so that every channel mean is an integer and var + eps is
\* the square of an integer.
ChPos(r, c, C, P) == (((r - 1) \div P) * C + (c - 1)) * P + ((r - 1) % P) + 1   \* r in 1..N*P
ChOf(i, C, P) == (((i - 1) \div P) % C) + 1
ChSum(f(_), N, c, C, P) == SumF(LAMBDA r : f(ChPos(r, c, C, P)), N * P)
BNMean(x, N, C, P) == [c \in 1..C |-> ChSum(LAMBDA i : x[i], N, c, C, P) \div (N * P)]
BNVar(x, mean, N, C, P) ==
  [c \in 1..C |-> ChSum(LAMBDA i : (x[i] - mean[c]) * (x[i] - mean[c]), N, c, C, P) \div (N * P)]
BNExact(x, mean, var, N, C, P, eps) ==           \* the side condition on the inputs
  \A c \in 1..C : /\ ChSum(LAMBDA i : x[i], N, c, C, P) = mean[c] * N * P
                  /\ ChSum(LAMBDA i : (x[i] - mean[c]) * (x[i] - mean[c]), N, c, C, P) = var[c] * N * P
                  /\ Isqrt(var[c] + eps) * Isqrt(var[c] + eps) = var[c] + eps
\* output times 2^16
BNY16(x, mean, s, gamma, beta, N, C, P) ==
  [i \in 1..(N * C * P) |->
     LET c == ChOf(i, C, P) IN RDiv(gamma[c] * (x[i] - mean[c]) * 65536, s[c]) + beta[c] * 65536]
\* input gradient times 2^12:  gamma (n s^2 g - s^2 sum g - xc sum(xc g)) / (n s^3)
BNDX12(x, mean, s, gamma, g, N, C, P) ==
  LET sg == TLCEval([c \in 1..C |-> ChSum(LAMBDA i : g[i], N, c, C, P)])
      sx == TLCEval([c \in 1..C |-> ChSum(LAMBDA i : (x[i] - mean[c]) * g[i], N, c, C, P)])
      n == N * P
  IN [i \in 1..(N * C * P) |->
        LET c == ChOf(i, C, P)
            num == n * s[c] * s[c] * g[i] - s[c] * s[c] * sg[c] - (x[i] - mean[c]) * sx[c]
        IN RDiv(gamma[c] * num * 4096, n * s[c] * s[c] * s[c])]
BNDGamma12(x, mean, s, g, N, C, P) ==
  [c \in 1..C |-> RDiv(ChSum(LAMBDA i : (x[i] - mean[c]) * g[i], N, c, C, P) * 4096, s[c])]
BNDBeta(g, N, C, P) == [c \in 1..C |-> ChSum(LAMBDA i : g[i], N, c, C, P)]
=============================================================================
