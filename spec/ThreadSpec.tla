----------------------------- MODULE ThreadSpec -----------------------------
(* Threads that work on objects of their own.  A call is not atomic: it reads *)
(* what it touches, and writes it later.  Calls that draw random numbers also *)
(* touch the source of randomness, which each thread has of its own or which  *)
(* all share under a lock ("shared" is the design that is not acceptable).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Thread, Obj, Source
VARIABLES mem,    \* location -> value
          pc,     \* thread -> the call in progress: [o, draw, got], or Idle
          out,    \* thread -> results of its finished calls: <<object, value the call saw in it>>
          drawn   \* numbers of the draws made so far, with multiplicity one
thvars == <<mem, pc, out, drawn>>
Idle == [o |-> 0, draw |-> FALSE, got |-> 0, r |-> 0]
\* objects are owned: object o belongs to thread (o % |Thread|) + 1
Own(t) == { o \in Obj : (o % Cardinality(Thread)) + 1 = t }
Src(t) == IF Source = "own" THEN <<"src", t>> ELSE <<"src", 0>>
Loc(o) == <<"obj", o>>
Locs == { Loc(o) : o \in Obj } \cup { <<"src", t>> : t \in Thread \cup {0} }
Touched(t) == IF pc[t] = Idle THEN {} ELSE {Loc(pc[t].o)} \cup (IF pc[t].draw /\ Source # "locked" THEN {Src(t)} ELSE {})
Busy(t) == pc[t] # Idle
Call(t, o, draw) ==
  /\ ~Busy(t) /\ o \in Own(t)
  /\ IF draw /\ Source = "locked"       \* the draw is one step
     THEN /\ mem' = [mem EXCEPT ![Src(t)] = @ + 1] /\ drawn' = drawn \cup {<<Src(t), mem[Src(t)]>>}
          /\ pc' = [pc EXCEPT ![t] = [o |-> o, draw |-> draw, got |-> mem[Loc(o)], r |-> 0]]
     ELSE /\ UNCHANGED <<mem, drawn>>
          /\ pc' = [pc EXCEPT ![t] = [o |-> o, draw |-> draw, got |-> mem[Loc(o)], r |-> IF draw THEN mem[Src(t)] ELSE 0]]
  /\ UNCHANGED out
Return(t) ==
  /\ Busy(t)
  /\ LET c == pc[t]
         m1 == [mem EXCEPT ![Loc(c.o)] = c.got + 1]
     IN IF c.draw /\ Source # "locked"
        THEN mem' = [m1 EXCEPT ![Src(t)] = c.r + 1] /\ drawn' = drawn \cup {<<Src(t), c.r>>}
        ELSE mem' = m1 /\ UNCHANGED drawn
  /\ out' = [out EXCEPT ![t] = Append(@, <<pc[t].o, pc[t].got>>)]
  /\ pc' = [pc EXCEPT ![t] = Idle]
Begin == mem = [x \in Locs |-> 0] /\ pc = [t \in Thread |-> Idle] /\ out = [t \in Thread |-> << >>] /\ drawn = {}
------------------------------------------------------------------------------
\* no two calls in progress touch the same memory
NoRace == \A t, u \in Thread : t # u => Touched(t) \cap Touched(u) = {}
\* every thread sees what it would see alone: its n-th call on an object finds the effect of its first n-1
AsIfAlone == \A t \in Thread : \A i \in 1..Len(out[t]) :
               out[t][i][2] = Cardinality({ j \in 1..(i - 1) : out[t][j][1] = out[t][i][1] })
Draws == Cardinality(drawn)
=============================================================================
