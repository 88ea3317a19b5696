------------------------------- MODULE Trace --------------------------------
(* Plumbing shared by all trace specifications: reads the ndjson trace named *)
(* by the environment variable TRACE and defines acceptance.                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLE l                                   \* next line of the trace

TLog == ndJsonDeserialize(IOEnv.TRACE)
More == l <= Len(TLog)
Ev   == TLog[l]
IsBegin == More /\ Ev.e = "begin" /\ l' = l + 1
IsOp    == More /\ Ev.e = "op"    /\ l' = l + 1
IsEnd   == More /\ Ev.e = "end"   /\ l' = l + 1
\* no action consumes a "crash" event: a process that died is never a behaviour

Reached == TLCGet("stats").diameter - 1
TAccepted == PrintT(<<"REACHED", Reached, Len(TLog)>>) /\ Reached = Len(TLog)
=============================================================================
