------------------------------ MODULE Tr_Init -------------------------------
EXTENDS InitSpec, Trace
TInit == l = 1 /\ last = << >> /\ filled = << >>
TBegin == IsBegin /\ last' = << >> /\ filled' = << >>
TOp == IsOp /\ Ev.r.err = 0 /\ Ev.r.shok /\ Ev.r.guards /\ Initialise(Ev, Ev.r.v)
TEnd == IsEnd /\ UNCHANGED ivars
TNext == TBegin \/ TOp \/ TEnd
TSpec == TInit /\ [][TNext]_<<ivars, l>>
=============================================================================
