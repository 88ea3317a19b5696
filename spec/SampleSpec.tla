----------------------------- MODULE SampleSpec -----------------------------
(* The sample programs: data sets read from folders of images or a CSV table, *)
(* and their train and test runs.                                             *)
EXTENDS Num
VARIABLES Kind,    \* "mnist", "cifar10", "cifar100" or "iris"
          Trees,   \* place -> [items |-> sequence of items, dirs |-> names of classes]; item: [c |-> class, ...]
          D,       \* data set -> [t |-> place, at |-> index -> number of the item found there]
          Lab,     \* class -> label, as far as it is known
          Names,   \* classes seen by the process
          Models,  \* model file -> <<place, batch, accuracy its training ended with>>
          sout     \* what the last call returned
savars == <<Kind, Trees, D, Lab, Names, Models, sout>>
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Planes == <<"airplane", "automobile", "bird", "cat", "deer", "dog", "frog", "horse", "ship", "truck">>
Irises == <<"setosa", "versicolor", "virginica">>
Table(k) == CASE k = "mnist" -> Digits [] k = "cifar10" -> Planes [] k = "iris" -> Irises [] OTHER -> << >>
IsIn(x, s) == \E i \in 1..Len(s) : s[i] = x
Where(x, s) == CHOOSE i \in 1..Len(s) : s[i] = x
Fixed(k, c) == IsIn(c, Table(k))
Known(k, c) == k = "cifar100" \/ Fixed(k, c)
Begin(k) == Kind = k /\ Trees = << >> /\ D = << >> /\ Lab = << >> /\ Names = {} /\ Models = << >> /\ sout = [k |-> "none"]
Add(f, x, y) == [z \in (DOMAIN f) \cup {x} |-> IF z = x THEN y ELSE f[z]]
\* (the files of a data set that is open are left alone)
Write(t, items, dirs) == (\A k \in DOMAIN D : D[k].t # t) /\ Trees' = Add(Trees, t, [items |-> items, dirs |-> dirs]) /\ sout' = [k |-> "none"] /\ UNCHANGED <<Kind, D, Lab, Names, Models>>

\* ---- opening: every class must be known and every row complete; blank rows may count as nothing or be refused
Items(t) == Trees[t].items
Rows(t) == SelectSeq(Items(t), LAMBDA x : x.how # "blank")
MustRefuse(t) == IF t \notin DOMAIN Trees THEN TRUE
                 ELSE IF \E c \in Trees[t].dirs : ~Known(Kind, c) THEN TRUE
                 ELSE \E i \in 1..Len(Items(t)) : Items(t)[i].how = "short"
MayRefuse(t) == IF MustRefuse(t) THEN TRUE ELSE \E i \in 1..Len(Items(t)) : Items(t)[i].how \in {"blank", "cr"}
Open(k, t) ==
  \/ /\ MustRefuse(t) = FALSE
     /\ D' = Add(D, k, [t |-> t, rows |-> Rows(t), at |-> << >>]) /\ Names' = Names \cup Trees[t].dirs
     /\ sout' = [k |-> "open", n |-> Len(Rows(t))]
     /\ UNCHANGED <<Kind, Trees, Lab, Models>>
  \/ /\ MayRefuse(t) = TRUE /\ sout' = [k |-> "refused"]
     /\ D' = [z \in (DOMAIN D) \ {k} |-> D[z]]
     /\ Names' = Names \cup (IF t \in DOMAIN Trees THEN Trees[t].dirs ELSE {})
     /\ UNCHANGED <<Kind, Trees, Lab, Models>>

\* ---- pulling: index i stands for one item, the same each time, and no two indices for the same one
MayBe(k, i, m) == LET at == D[k].at IN
  IF i \in DOMAIN at THEN at[i] = m
  ELSE (Kind = "iris" => m = i + 1) /\ \A j \in DOMAIN at : at[j] # m
Labels(c) == IF Fixed(Kind, c) THEN {Where(c, Table(Kind)) - 1}
             ELSE IF c \in DOMAIN Lab THEN {Lab[c]}
             ELSE { y \in 0..(Cardinality(Names) - 1) : \A d \in DOMAIN Lab : Lab[d] # y }
Pull(k, i, m, y) ==
  LET x == D[k].rows[m]
  IN /\ MayBe(k, i, m)
     /\ D' = [D EXCEPT ![k].at = Add(@, i, m)]
     /\ UNCHANGED <<Kind, Trees, Names, Models>>
     /\ IF x.how = "odd" THEN sout' = [k |-> "refused"] /\ UNCHANGED Lab       \* not an image of the right size
        ELSE /\ y \in Labels(x.c) /\ Lab' = Add(Lab, x.c, y)
             /\ sout' = [k |-> "item", m |-> m, y |-> y]

\* ---- element e (from 1) of what is delivered for an item
\* pictures: the file holds height x width x channels bytes (a + b q) mod 256, the data set channels x height x width
Side(k) == IF k = "mnist" THEN 28 ELSE 32
Chan(k) == IF k = "mnist" THEN 1 ELSE 3
Size(k) == IF k = "iris" THEN 4 ELSE Side(k) * Side(k) * Chan(k)
Elem(k, x, e) ==
  IF k = "iris" THEN x.x[e]
  ELSE LET plane == Side(k) * Side(k)
           q == ((e - 1) % plane) * Chan(k) + (e - 1) \div plane
       IN (x.a + x.b * q) % 256

\* ---- training: what is printed, and testing a saved model
Tick(i, batch, freq) == ((i * batch) % freq) = 0
LossLines(n, batch, freq) == Cardinality({ i \in 1..(n \div batch) : Tick(i, batch, freq) }) + 1
EpochKinds(n, batch, freq) == <<"epoch">> \o [j \in 1..LossLines(n, batch, freq) |-> "loss"] \o <<"acc">>
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN << >> ELSE s \o Repeat(s, n - 1)
TrainKinds(n, batch, freq, epochs) == Repeat(EpochKinds(n, batch, freq), epochs) \o <<"saved">>
\* an accuracy (in millionths) is a number of right answers out of the full batches of the test data
IsAcc(a, n, batch) == LET N == (n \div batch) * batch
                      IN IsNum(a) /\ \E right \in 0..N : Abs(a * N - right * 1000000) <= 2 * N
Train(f, t, batch, acc) == Models' = Add(Models, f, <<t, batch, acc>>) /\ sout' = [k |-> "train", acc |-> acc] /\ UNCHANGED <<Kind, Trees, D, Lab, Names>>
Test(f, t, batch) == /\ f \in DOMAIN Models /\ Models[f][1] = t /\ Models[f][2] = batch
                     /\ sout' = [k |-> "test", acc |-> Models[f][3]] /\ UNCHANGED <<Kind, Trees, D, Lab, Names, Models>>
------------------------------------------------------------------------------
Injective == \A c, d \in DOMAIN Lab : c # d => Lab[c] # Lab[d]
OneItemEach == \A k \in DOMAIN D : \A i, j \in DOMAIN D[k].at : i # j => D[k].at[i] # D[k].at[j]
\* having seen every index, one has seen every item
AllSeen == \A k \in DOMAIN D : DOMAIN D[k].at = 0..(Len(D[k].rows) - 1) => { D[k].at[i] : i \in DOMAIN D[k].at } = 1..Len(D[k].rows)
=============================================================================
