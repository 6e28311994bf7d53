----------------------------- MODULE TraceInputs ----------------------------
(* Conformance of recorded command runs with respect to their inputs (C14).   *)
EXTENDS Inputs, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Scen(n) == Trace[n + 1]
VARIABLES sc, pos, files, bad
vars == <<sc, pos, files, bad>>
Ops == Scen(sc).ops

Accepts(op) ==
    /\ op.cmd \in Commands /\ Outcome(op.cmd, op.obs.r)
    /\ Kept(op.cmd, Scen(sc).same, files, op.obs.files)

TraceInit == /\ sc \in 1..(Len(Trace) - 1) /\ pos = 1 /\ bad = FALSE /\ files = Scen(sc).files
TraceNext ==
    /\ ~bad /\ pos <= Len(Ops) /\ UNCHANGED sc
    /\ LET op == Ops[pos]
       IN  IF Accepts(op)
           THEN files' = op.obs.files /\ pos' = pos + 1 /\ UNCHANGED bad
           ELSE /\ PrintT("MISMATCH " \o ToJson([scenario |-> sc, step |-> pos]))
                /\ bad' = TRUE /\ UNCHANGED <<pos, files>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == ~bad
=============================================================================
