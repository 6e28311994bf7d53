----------------------------- MODULE TraceView ------------------------------
(* Conformance of recorded requests on the mounted view.  The state consists  *)
(* of what the client knows: objects that its node references stand for, and  *)
(* inode numbers it has seen.  Requests that were in flight at the same time  *)
(* appear in any order, as every one has to be answered as if it were alone.  *)
EXTENDS Order, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
H == Trace[1]
Scen(n) == Trace[n + 1]
T0 == H.r0  T1 == H.r1  T3 == H.r3  T5 == H.r5  T256 == H.r256  TLast == H.last
TImpossible(v, n) == n \in {Scen(v.sc).impossible[k] : k \in 1..Len(Scen(v.sc).impossible)}
CONSTANTS M0, MFirst, MLast, MFs, MRootTree, MChunkTree, ImpossibleName(_, _)
INSTANCE View

VARIABLES sc, pos, view, slots, inos, bad
vars == <<sc, pos, view, slots, inos, bad>>
Ops == Scen(sc).ops

Own(name) == <<-1, name>>     \* objects of the view itself

\* All that a request may be about
Objs(op) == slots[op.n]

\* Inode numbers that an answer shows: pairs <<object, number>>
Shown(op) ==
    CASE op.op = "own" /\ op.obs.r = "ok" -> {<<Own(op.which), op.obs.ino>>}
      [] op.op = "enter" /\ op.obs.r = "ok" -> {<<Root, op.obs.ino>>}
      [] op.op = "getattr" /\ op.obs.r = "ok" /\ Cardinality(Objs(op)) = 1 ->
            {<<o, op.obs.ino>> : o \in Objs(op)}
      [] op.op = "lookup" /\ op.obs.r = "ok" ->
            LET c == UNION {Named(view, o, op.name) : o \in Objs(op)}
            IN  IF Cardinality(c) = 1 THEN {<<o, op.obs.ino>> : o \in c} ELSE {}
      [] op.op = "readdir" /\ op.obs.r = "ok" ->
            UNION {LET c == UNION {Named(view, o, op.obs.list[k].name) : o \in Objs(op)}
                   IN  IF Cardinality(c) = 1 /\ op.obs.list[k].plus
                       THEN {<<o, op.obs.list[k].ino>> : o \in c} ELSE {}
                   : k \in 1..Len(op.obs.list)}
      [] OTHER -> {}

InosOk(shown) ==
    LET all == inos \cup shown
    IN  \A x \in all : \A y \in shown : (x[1] = y[1]) <=> (x[2] = y[2])

\* A read of the device failed while this was served
Excused(op) == "failed" \in DOMAIN op /\ op.failed /\ op.obs.r = "err" /\ op.obs.e = 5     \* EIO

Answers(op) ==
    CASE op.op = "own" -> op.obs.r = "ok"
      [] op.op = "enter" -> GetAttrOk(view, Root, op.obs)
      [] op.op = "lookup" -> \E o \in Objs(op) : LookupOk(view, o, op.name, op.obs)
      [] op.op = "getattr" -> \E o \in Objs(op) : GetAttrOk(view, o, op.obs)
      [] op.op = "readdir" -> \E o \in Objs(op) : ReaddirOk(view, o, op.obs)
      [] op.op = "readlink" -> \E o \in Objs(op) : ReadlinkOk(view, Scen(sc).img, o, op.obs)
      [] op.op = "getxattr" -> \E o \in Objs(op) : GetXAttrOk(view, o, op.name, op.obs)
      [] op.op = "listxattr" -> \E o \in Objs(op) : ListXAttrOk(view, o, op.obs)
      [] op.op = "open" -> op.obs.r = "ok"
      [] op.op = "mattr" -> MetadataAttrOk(Scen(sc).indexsize, op.obs)
      [] op.op = "mopen" -> op.obs.r = "ok"
      [] op.op = "mread" -> MetadataReadOk(Scen(sc).indexsize, op.off, op.len, op.obs)
      [] op.op = "read" -> \E o \in Objs(op) : (Excused(op) \/ ReadOk(view, Scen(sc).img, o, op.off, op.len, op.obs))
      [] op.op = "forget" -> op.obs.r = "ok"
      [] op.op = "mutate" -> op.obs.r = "err"
      [] op.op = "inputs" -> op.obs.same
      [] op.op = "end" -> op.obs.r = "ok" /\ op.obs.races = 0
Accepts(op) == op.obs.r \in {"ok", "err"} /\ Answers(op) /\ InosOk(Shown(op))

NewSlots(op) ==
    CASE op.op = "enter" /\ op.obs.r = "ok" -> (op.to :> {Root}) @@ slots
      [] op.op = "lookup" /\ op.obs.r = "ok" /\ op.to # 0 ->
            (op.to :> UNION {Named(view, o, op.name) : o \in Objs(op)}) @@ slots
      [] op.op = "forget" -> [s \in DOMAIN slots \ {op.n} |-> slots[s]]
      [] OTHER -> slots

TraceInit == /\ sc \in 1..(Len(Trace) - 1) /\ pos = 1 /\ bad = FALSE
             /\ view = View(Scen(sc).items) @@ [sc |-> sc]
             /\ slots = <<>> /\ inos = {}
TraceNext ==
    /\ ~bad /\ pos <= Len(Ops) /\ UNCHANGED <<sc, view>>
    /\ LET op == Ops[pos]
       IN  IF Accepts(op)
           THEN /\ slots' = NewSlots(op) /\ inos' = inos \cup Shown(op)
                /\ pos' = pos + 1 /\ UNCHANGED bad
           ELSE /\ PrintT("MISMATCH " \o ToJson([scenario |-> sc, step |-> pos]))
                /\ bad' = TRUE /\ UNCHANGED <<pos, slots, inos>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == ~bad
=============================================================================
