---------------------------- MODULE TraceRecover ----------------------------
(* Conformance of recorded recover commands.  The state is the destination    *)
(* directory and everything outside of it.                                    *)
(*   set      the scenario puts things there                                  *)
(*   recover  the command ran                                                 *)
EXTENDS Order, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
H == Trace[1]
Scen(n) == Trace[n + 1]
T0 == H.r0  T1 == H.r1  T3 == H.r3  T5 == H.r5  T256 == H.r256  TLast == H.last
TChars(v, n) == Scen(v.sc).names[n]
TSubName(v, i) == LET s == Scen(v.sc).subnames IN s[CHOOSE k \in 1..Len(s) : s[k][1] = i][2]
CONSTANTS M0, MFirst, MLast, MFs, MRootTree, MChunkTree, Chars(_, _), SubName(_, _)
INSTANCE Recover

VARIABLES sc, pos, view, tree, outside, last, bad
vars == <<sc, pos, view, tree, outside, last, bad>>
Ops == Scen(sc).ops

\* Recorded nodes are [p, kind, ...]
Tree(nodes) == [p \in {nodes[n].p : n \in 1..Len(nodes)} |->
                   nodes[CHOOSE n \in 1..Len(nodes) : nodes[n].p = p]]
SeqSet(s) == {s[n] : n \in 1..Len(s)}

\* With what failed during this run
Now(op) == IF "faults" \notin DOMAIN op THEN view
           ELSE [view EXCEPT !.faults = SeqSet(op.faults), !.hit = SeqSet(op.hit)]

Accepts(op) ==
    LET after == Tree(op.obs.tree)
    IN  /\ op.obs.r = "ok" \/ (op.obs.r = "err" /\ op.blocked)
        /\ op.obs.outside = outside                                           \* C12
        /\ IF op.blocked THEN TRUE
           ELSE /\ RecoverOk(Now(op), op.img, tree, after, op.clobber, SeqSet(op.obs.reported))
                /\ last = <<"recover", op.clobber>> =>                           \* repeated
                      /\ DOMAIN after = DOMAIN tree
                      /\ \A p \in DOMAIN tree : Same(after[p], tree[p])

TraceInit == /\ sc \in 1..(Len(Trace) - 1) /\ pos = 1 /\ bad = FALSE
             /\ view = View(Scen(sc).items) @@ [sc |-> sc]
             /\ tree = <<>> /\ outside = <<>> /\ last = <<>>
TraceNext ==
    /\ ~bad /\ pos <= Len(Ops) /\ UNCHANGED <<sc, view>>
    /\ LET op == Ops[pos]
       IN  IF op.op = "set"
           THEN /\ tree' = Tree(op.tree) /\ outside' = op.outside /\ last' = <<"set">>
                /\ pos' = pos + 1 /\ UNCHANGED bad
           ELSE IF Accepts(op)
           THEN /\ tree' = Tree(op.obs.tree) /\ last' = IF "faults" \in DOMAIN op THEN <<"failed">> ELSE <<"recover", op.clobber>>
                /\ pos' = pos + 1 /\ UNCHANGED <<bad, outside>>
           ELSE /\ PrintT("MISMATCH " \o ToJson([scenario |-> sc, step |-> pos]))
                /\ bad' = TRUE /\ UNCHANGED <<pos, tree, outside, last>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == ~bad
=============================================================================
