--------------------------- MODULE TraceIndexBulk ---------------------------
(* Conformance of recorded behaviours with long runs of inserts.              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Scen(n) == Trace[n + 1]
TLag == Trace[1].lag
CONSTANT MaxLag
INSTANCE IndexBulk

VARIABLES sc, pos, st, bad
vars == <<sc, pos, st, bad>>
Ops == Scen(sc).ops

Outcomes(op) ==
    CASE op.op = "open" -> OpenOutcomes(st)
      [] op.op = "bulk" -> BulkOutcomes(st, op.n)
      [] op.op = "commit" -> CommitOutcomes(st)
      [] op.op = "close" -> CloseOutcomes(st)
      [] op.op = "query" -> QueryOutcomes(st)
      [] op.op = "crash" -> IF CrashAllows(st, op.obs)
                            THEN Out(op.obs, CrashState(st, op.obs)) ELSE {}

Matching(op) == {out \in Outcomes(op) : out.res = op.obs}

TraceInit == sc \in 1..(Len(Trace) - 1) /\ pos = 1 /\ st = InitState(Scen(sc).period) /\ bad = FALSE

TraceNext ==
    /\ ~bad /\ pos <= Len(Ops) /\ sc' = sc
    /\ LET op == Ops[pos]
           m == Matching(op)
       IN  IF m # {}
           THEN /\ \E out \in m : st' = out.st
                /\ pos' = pos + 1 /\ bad' = FALSE
           ELSE /\ PrintT("MISMATCH " \o ToJson([scenario |-> sc, step |-> pos,
                        allowed |-> {out.res : out \in Outcomes(op)}, state |-> st]))
                /\ bad' = TRUE /\ UNCHANGED <<pos, st>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == ~bad
=============================================================================
