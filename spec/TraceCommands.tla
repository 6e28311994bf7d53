---------------------------- MODULE TraceCommands ---------------------------
(* Conformance of recorded command lines (C24).                               *)
EXTENDS Commands, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Scen(n) == Trace[n + 1]
VARIABLES sc, pos, bad
vars == <<sc, pos, bad>>
Ops == Scen(sc).ops
ToSet(s) == {s[i] : i \in 1..Len(s)}
Accepts(op) == op.c.cmd \in Cmds /\
    Allowed(op.c, [op.obs EXCEPT !.changed = ToSet(op.obs.changed), !.read = ToSet(op.obs.read)])

TraceInit == sc \in 1..(Len(Trace) - 1) /\ pos = 1 /\ bad = FALSE
TraceNext ==
    /\ ~bad /\ pos <= Len(Ops) /\ UNCHANGED sc
    /\ IF Accepts(Ops[pos]) THEN pos' = pos + 1 /\ UNCHANGED bad
       ELSE /\ PrintT("MISMATCH " \o ToJson([scenario |-> sc, step |-> pos])) /\ bad' = TRUE /\ UNCHANGED pos
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == ~bad
=============================================================================
