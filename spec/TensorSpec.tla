----------------------------- MODULE TensorSpec -----------------------------
(* deepworks::Tensor: handles share descriptors, descriptors own or view    *)
(* buffers.  One action per public call, taken at the call's return.        *)
EXTENDS Num

CONSTANTS Handle          \* set of positive integers naming Tensor objects

VARIABLES
  H,      \* [Handle -> 0..Len(D)]: descriptor of a handle, 0 = no such object
  D,      \* sequence of descriptors [shape, total, buf, off]
  B,      \* sequence of buffers (sequences of values); external ones first
  err     \* 0: the last call returned, 1: it threw

tvars == <<H, D, B, err>>

Strides(shape) == [i \in 1..Len(shape) |-> Prod(SubSeq(shape, i + 1, Len(shape)))]
HasNeg(shape)  == \E i \in 1..Len(shape) : shape[i] < 0

Live(h)   == H[h] # 0
Desc(h)   == D[H[h]]
Vals(h)   == LET d == Desc(h) IN [i \in 1..d.total |-> B[d.buf][d.off + i]]

NoDesc == [shape |-> << >>, total |-> 0, buf |-> 0, off |-> 0]

Ok   == err' = 0
Fail == err' = 1 /\ UNCHANGED <<H, D, B>>

\* ---- object creation --------------------------------------------------------
NewDefault(h) ==
  /\ D' = Append(D, NoDesc)
  /\ H' = [H EXCEPT ![h] = Len(D) + 1]
  /\ UNCHANGED B /\ Ok

NewFilled(h, shape, v) ==
  IF HasNeg(shape) THEN Fail
  ELSE /\ B' = Append(B, [i \in 1..Prod(shape) |-> v])
       /\ D' = Append(D, [shape |-> shape, total |-> Prod(shape), buf |-> Len(B) + 1, off |-> 0])
       /\ H' = [H EXCEPT ![h] = Len(D) + 1]
       /\ Ok

NewTensor(h, shape) == NewFilled(h, shape, UNKNOWN)

Wrap(h, shape, b, off) ==
  IF HasNeg(shape) THEN Fail
  ELSE /\ D' = Append(D, [shape |-> shape, total |-> Prod(shape), buf |-> b, off |-> off])
       /\ H' = [H EXCEPT ![h] = Len(D) + 1]
       /\ UNCHANGED B /\ Ok

CopyHandle(h, src) == H' = [H EXCEPT ![h] = H[src]] /\ UNCHANGED <<D, B>> /\ Ok
DropHandle(h)      == H' = [H EXCEPT ![h] = 0] /\ UNCHANGED <<D, B>> /\ Ok

\* ---- descriptor operations: visible through every handle sharing it ---------
Allocate(h, shape) ==
  IF HasNeg(shape) THEN Fail
  ELSE /\ B' = Append(B, [i \in 1..Prod(shape) |-> UNKNOWN])
       /\ D' = [D EXCEPT ![H[h]] = [shape |-> shape, total |-> Prod(shape), buf |-> Len(B) + 1, off |-> 0]]
       /\ UNCHANGED H /\ Ok

Reshape(h, shape) ==
  IF HasNeg(shape) \/ Prod(shape) # Desc(h).total THEN Fail
  ELSE /\ D' = [D EXCEPT ![H[h]].shape = shape]
       /\ UNCHANGED <<H, B>> /\ Ok

\* ---- element operations ------------------------------------------------------
SetVals(d, f(_)) ==
  B' = [B EXCEPT ![d.buf] = [i \in 1..Len(B[d.buf]) |->
          IF i > d.off /\ i <= d.off + d.total THEN f(i - d.off) ELSE B[d.buf][i]]]

CopyTo(h, dst) ==
  LET s == Desc(h)  d == Desc(dst)
  IN IF s.shape # d.shape \/ d.total = 0 THEN Fail
     ELSE IF s.total = 0      \* a never-allocated tensor has the (scalar) empty shape but nothing to copy
          THEN UNCHANGED <<H, D, B>> /\ Ok
          ELSE SetVals(d, LAMBDA i : B[s.buf][s.off + i]) /\ UNCHANGED <<H, D>> /\ Ok

FillFrom(h, v, step) ==
  LET d == Desc(h)
  IN IF d.total = 0 THEN UNCHANGED <<H, D, B>> /\ Ok
     ELSE SetVals(d, LAMBDA i : v + step * (i - 1)) /\ UNCHANGED <<H, D>> /\ Ok

Write(h, i, v) ==
  LET d == Desc(h)
  IN B' = [B EXCEPT ![d.buf][d.off + i + 1] = v] /\ UNCHANGED <<H, D>> /\ Ok

\* ---- printing: shows every element once, in storage order (Shown), and changes nothing
ShowAll(h) == UNCHANGED <<H, D, B>> /\ Ok
Shown(h, seen) == LET d == Desc(h)
                  IN /\ Len(seen) = d.total
                     /\ \A i \in 1..d.total : B[d.buf][d.off + i] \in {UNKNOWN, seen[i]}

\* ---- dispatch: an operation record names the call and its arguments ----------
Do(op) ==
  CASE op.op = "default" -> NewDefault(op.h)
    [] op.op = "new"     -> NewTensor(op.h, op.shape)
    [] op.op = "fzeros"  -> NewFilled(op.h, op.shape, 0)
    [] op.op = "fconst"  -> NewFilled(op.h, op.shape, op.v)
    [] op.op = "wrap"    -> Wrap(op.h, op.shape, op.b, op.off)
    [] op.op = "copy"    -> CopyHandle(op.h, op.src)
    [] op.op = "alloc"   -> Allocate(op.h, op.shape)
    [] op.op = "reshape" -> Reshape(op.h, op.shape)
    [] op.op = "copyto"  -> CopyTo(op.h, op.dst)
    [] op.op = "write"   -> Write(op.h, op.i, op.v)
    [] op.op = "zeros"   -> FillFrom(op.h, 0, 0)
    [] op.op = "const"   -> FillFrom(op.h, op.v, 0)
    [] op.op = "fill"    -> FillFrom(op.h, op.v, 1)
    [] op.op = "drop"    -> DropHandle(op.h)
    [] op.op = "print"   -> ShowAll(op.h)

\* an operation is meaningful in the current state
Overlap(a, b) == a.buf = b.buf /\ a.off < b.off + b.total /\ b.off < a.off + a.total
Enabled(op) ==
  CASE op.op \in {"default", "new", "fzeros", "fconst"} -> TRUE
    [] op.op = "wrap"   -> HasNeg(op.shape) \/ op.off + Prod(op.shape) <= Len(B[op.b])
    [] op.op = "copy"   -> Live(op.src)
    [] op.op = "copyto" -> /\ Live(op.h) /\ Live(op.dst)
                           /\ LET s == Desc(op.h) d == Desc(op.dst)
                              IN ~Overlap(s, d) \/ s.off = d.off
    [] op.op = "write"  -> Live(op.h) /\ op.i < Desc(op.h).total
    [] OTHER            -> Live(op.h)

\* ---- properties of the design -------------------------------------------------
TypeOK ==
  /\ \A h \in Handle : H[h] \in 0..Len(D)
  /\ err \in {0, 1}

\* a tensor's element count, strides and shape always describe the same block,
\* and the block always lies inside its buffer
MetadataConsistent ==
  \A h \in Handle : Live(h) =>
     LET d == Desc(h)
     IN /\ ~HasNeg(d.shape)
        /\ d.buf = 0 => d.total = 0
        /\ d.buf # 0 => d.total = Prod(d.shape) /\ d.off + d.total <= Len(B[d.buf])
        /\ \A i \in 1..Len(d.shape) : Strides(d.shape)[i] = Prod(SubSeq(d.shape, i + 1, Len(d.shape)))

\* row-major addressing is a bijection between multi-indices and 0..total-1
RECURSIVE Offsets(_, _)
Offsets(shape, st) == IF shape = << >> THEN {0}
                      ELSE { i * Head(st) + o : i \in 0..(Head(shape) - 1), o \in Offsets(Tail(shape), Tail(st)) }
RowMajorBijective ==
  \A h \in Handle : Live(h) /\ Desc(h).buf # 0 =>
     Offsets(Desc(h).shape, Strides(Desc(h).shape)) = 0..(Desc(h).total - 1)

\* action properties
RejectedIsNoop == [][err' = 1 => UNCHANGED <<H, D, B>>]_tvars
HandlesShare   == [][\A a, b \in Handle : (H[a] # 0 /\ H[a] = H[b] /\ H'[a] = H[a] /\ H'[b] = H[b])
                        => D'[H'[a]] = D'[H'[b]]]_tvars
=============================================================================
