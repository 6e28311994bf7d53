----------------------------- MODULE TraceRecon -----------------------------
(* Conformance of recorded scans.  Each step is one run of recon, with its    *)
(* exit status and the contents of the index file afterwards: for each item,  *)
(* its version key, the number of data bytes, and all the places of the       *)
(* images that hold the same item header and the same data.                   *)
EXTENDS Order, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
H == Trace[1]
Scen(n) == Trace[n + 1]
TReserved == H.max
CONSTANTS HeaderLen, ItemLen, SuperOffset, ReservedOwner
INSTANCE Recon

VARIABLES sc, pos, st, bad
vars == <<sc, pos, st, bad>>
Ops == Scen(sc).ops
Imgs == Scen(sc).images

Empty == <<>>            \* the index without items

ItemOk(o, p) ==
    LET img == Imgs[p[1]]
        it == img.blocks[p[2]].slots[p[3]]
        len == DataLen(img, it)
    IN  /\ \E n \in 1..Len(o.hdr) : o.hdr[n] = p
        /\ o.len = len
        /\ len = 0 \/ \E n \in 1..Len(o.data) : o.data[n] = <<p[1], p[2], DataStart(img, it)>>

Holds(obs, ix) ==
    /\ obs.header                    \* the index's own record is intact
    /\ Len(obs.items) = Cardinality(DOMAIN ix)
    /\ \A n \in 1..Len(obs.items) :
          obs.items[n].k \in DOMAIN ix /\ ItemOk(obs.items[n], ix[obs.items[n].k])

Next1(op) ==             \* index after the step
    CASE op.op = "scan" -> After(st, Imgs[op.img], op.img, op.fsid)

Accepts(op, ix) == op.obs.r = "ok" /\ Holds(op.obs, ix)

TraceInit == sc \in 1..(Len(Trace) - 1) /\ pos = 1 /\ st = Empty /\ bad = FALSE

Diff(op) ==
    LET ix == Next1(op)
        seen == {op.obs.items[n].k : n \in 1..Len(op.obs.items)}
    IN  [missing |-> DOMAIN ix \ seen, extra |-> seen \ DOMAIN ix,
         wrong |-> {op.obs.items[n].k : n \in {m \in 1..Len(op.obs.items) :
                       op.obs.items[m].k \in DOMAIN ix /\ ~ItemOk(op.obs.items[m], ix[op.obs.items[m].k])}}]

TraceNext ==
    /\ ~bad /\ pos <= Len(Ops) /\ sc' = sc
    /\ LET op == Ops[pos]
           ix == Next1(op)
       IN  IF Accepts(op, ix)
           THEN st' = ix /\ pos' = pos + 1 /\ bad' = FALSE
           ELSE /\ PrintT("MISMATCH " \o ToJson([scenario |-> sc, step |-> pos, diff |-> Diff(op)]))
                /\ bad' = TRUE /\ UNCHANGED <<pos, st>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == ~bad
=============================================================================
