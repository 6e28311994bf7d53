------------------------------ MODULE TraceLs -------------------------------
(* Conformance of recorded ls commands.                                       *)
EXTENDS Order, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
H == Trace[1]
Scen(n) == Trace[n + 1]
T0 == H.r0  T1 == H.r1  T3 == H.r3  T5 == H.r5  T256 == H.r256  TLast == H.last
CONSTANTS M0, MFirst, MLast, MFs, MRootTree, MChunkTree
INSTANCE Ls

VARIABLES sc, pos, view, bad
vars == <<sc, pos, view, bad>>
Ops == Scen(sc).ops

Accepts(op) == CASE op.op = "ls" -> LsOk(view, op)
                 [] op.op = "dump" -> /\ op.obs.r = "ok"
                                      /\ op.obs.list = Sorted5({Scen(sc).items[n].k : n \in 1..Len(Scen(sc).items)})

TraceInit == sc \in 1..(Len(Trace) - 1) /\ pos = 1 /\ view = View(Scen(sc).items) /\ bad = FALSE
TraceNext ==
    /\ ~bad /\ pos <= Len(Ops) /\ UNCHANGED <<sc, view>>
    /\ IF Accepts(Ops[pos]) THEN pos' = pos + 1 /\ bad' = FALSE
       ELSE /\ PrintT("MISMATCH " \o ToJson([scenario |-> sc, step |-> pos]))
            /\ bad' = TRUE /\ UNCHANGED pos
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == ~bad
=============================================================================
