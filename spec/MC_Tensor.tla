----------------------------- MODULE MC_Tensor ------------------------------
(* Bounded instance of TensorSpec: exhaustive design check and, with EmitAt *)
(* set, a generator of call sequences that are replayed on the real code.   *)
EXTENDS TensorSpec, Json
CONSTANTS MaxLen, ShapeSet, ValSet, Printing
VARIABLES hist, done

ExtN == 12
ShapesSmall == { <<2>>, <<2, 3>>, << >>, <<0, 2>>, <<-1, 2>>, <<3, 2>> }
ShapesGen   == { << >>, <<1>>, <<2>>, <<3>>, <<6>>, <<2, 3>>, <<3, 2>>, <<1, 6>>, <<6, 1>>, <<0>>, <<0, 4>>,
                 <<3, 0, 2>>, <<2, 2, 2>>, <<1, 2, 1, 3>>, <<4, 1, 2>>, <<8>>, <<2, 4>>, <<12>>, <<2, 2, 3>>,
                 <<3, 4, 1, 1, 1>>, <<2, 1, 3, 2>>, <<5, 3>>, <<1, 1>>, <<1, 1, 1>>,
                 <<-1, 6>>, <<-2, -3>>, <<2, -3>>, <<-6, -1, 1>>, <<-1, -1>>, <<0, -1>> }

Take(op) == Enabled(op) /\ Do(op) /\ hist' = Append(hist, op)

Create  == \E op \in [op : {"new", "fzeros"}, h : Handle, shape : ShapeSet]
                \cup [op : {"fconst"}, h : Handle, shape : ShapeSet, v : ValSet] : Take(op)
CreateD == \E op \in [op : {"default"}, h : Handle] : Take(op)
Wraps   == \E op \in [op : {"wrap"}, h : Handle, shape : ShapeSet, b : {1}, off : {0, 2, 6}] : Take(op)
Share   == \E op \in [op : {"copy"}, h : Handle, src : Handle] : Take(op)
Drop    == \E op \in [op : {"drop"}, h : Handle] : Take(op)
Alloc   == \E op \in [op : {"alloc"}, h : Handle, shape : ShapeSet] : Take(op)
Resh    == \E op \in [op : {"reshape"}, h : Handle, shape : ShapeSet] : Take(op)
ReshOk  == \E op \in [op : {"reshape"}, h : Handle, shape : ShapeSet] :
              Live(op.h) /\ Prod(op.shape) = Desc(op.h).total /\ Take(op)
CopyT   == \E op \in [op : {"copyto"}, h : Handle, dst : Handle] : Take(op)
CopyOk  == \E op \in [op : {"copyto"}, h : Handle, dst : Handle] :
              Live(op.h) /\ Live(op.dst) /\ Desc(op.h).shape = Desc(op.dst).shape /\ H[op.h] # H[op.dst] /\ Take(op)
Writes  == \E op \in [op : {"write"}, h : Handle, i : 0..11, v : ValSet] : Take(op)
Fills   == \E op \in [op : {"zeros"}, h : Handle] \cup [op : {"const", "fill"}, h : Handle, v : ValSet] : Take(op)
Prints  == Printing /\ \E op \in [op : {"print"}, h : Handle] : Take(op)

Init == /\ H = [h \in Handle |-> 0] /\ D = << >> /\ err = 0
        /\ B = << [i \in 1..ExtN |-> 100 + i - 1] >>
        /\ hist = << >> /\ done = FALSE
Go == Len(hist) < MaxLen /\ done' = FALSE
Finish == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<tvars, hist>>
\* one disjunct per kind of call: TLC simulation first picks the kind, then the call
Next ==
  \/ Go /\ Create
  \/ Go /\ CreateD
  \/ Go /\ Wraps
  \/ Go /\ Share
  \/ Go /\ Drop
  \/ Go /\ Alloc
  \/ Go /\ Resh
  \/ Go /\ ReshOk
  \/ Go /\ CopyT
  \/ Go /\ CopyOk
  \/ Go /\ Writes
  \/ Go /\ Fills
  \/ Go /\ Prints
  \/ Go /\ Prints
  \/ Go /\ Prints
  \/ Finish
Spec == Init /\ [][Next]_<<tvars, hist, done>>
View == <<tvars, Len(hist)>>
Emit == done => PrintT("GEN " \o ToJson(hist))
=============================================================================
