----------------------------- MODULE Tr_Layout ------------------------------
EXTENDS LayoutSpec, Trace
TInit == l = 1 /\ X = [sh |-> <<1, 1, 1, 1>>, v |-> <<0>>]
TBegin == IsBegin /\ X' = [sh |-> <<1, 1, 1, 1>>, v |-> <<0>>]
TOp == /\ IsOp /\ Do(Ev) /\ Ev.r.err = 0
       /\ Ev.op # "set" => Ev.r.same /\ Ev.r.guards /\ Ev.r.v = X'.v
TEnd == IsEnd /\ UNCHANGED X
TNext == TBegin \/ TOp \/ TEnd
TSpec == TInit /\ [][TNext]_<<X, l>>
=============================================================================
