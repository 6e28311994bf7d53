---------------------------- MODULE TraceIdentify ---------------------------
(* Conformance of recorded samplings, listings and id texts (C18-C20).        *)
(* Counts of blocks are triples of digits to the base 2^30.  The state is the *)
(* order of ties that was seen so far.                                        *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Scen(n) == Trace[n + 1]

Base == 1073741824
BLess(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))
BAdd(a, i) ==
    LET l == a[3] + i   c == l \div Base
        m == a[2] + c   d == m \div Base
    IN  <<a[1] + d, m % Base, l % Base>>
BNum(n) == <<0, 0, n>>
INSTANCE Identify WITH Less <- BLess, Add <- BAdd, Num <- BNum

VARIABLES sc, pos, ties, bad
vars == <<sc, pos, ties, bad>>
Ops == Scen(sc).ops

SetOf(s) == {s[k] : k \in 1..Len(s)}

\* Listing of a partial reading: at least what is near the superblocks
Between(op) ==
    LET near(i) == Count(op.near, Leaves(op.near, i))
        all(i) == Count(op.blocks, Leaves(op.blocks, i))
        list == op.obs.list
    IN  /\ \A k \in 1..Len(list) : /\ list[k].count >= op.min
                                   /\ near(list[k].id) <= list[k].count /\ list[k].count <= all(list[k].id)
        /\ \A i \in Ids(op.near) : (near(i) > 0 /\ near(i) >= op.min) => \E k \in 1..Len(list) : list[k].id = i
        /\ \A j, k \in 1..Len(list) : j < k => (list[j].id # list[k].id /\ list[j].count >= list[k].count)

Accepts(op) ==
    CASE op.op = "offsets" ->
            op.obs.r = "ok" /\ SampleOk(op.dev, SetOf(op.supers), op.around, op.n, op.obs.list)
      [] op.op = "counted" ->      \* every block is a leaf of the same filesystem
            /\ op.obs.r = "ok"
            /\ op.obs.counts = <<SampleSize(op.dev, Near(op.dev, SetOf(op.supers), op.around),
                                           Requested(op.share, op.min, op.max))>>
      [] op.op = "collect" ->
            /\ op.once = 0 \/ op.min > 1     \* ids that occur once matter to no listing
            /\ op.obs.r = "ok" /\ EntriesOk(op.blocks, op.min, op.obs.list)
            /\ Fixed(ties \cup TieOrder(op.obs.list))
      [] op.op = "sampled" -> op.obs.r = "ok" /\ Between(op) /\ Fixed(ties \cup TieOrder(op.obs.list))
      [] op.op = "print" -> op.obs.r = "ok" /\ Selects(op.obs.text, op.id)
      [] op.op = "parse" ->
            IF IsId(op.text, 16) THEN op.obs.r = "ok" /\ op.obs.id = Value(op.text) ELSE op.obs.r = "err"
      [] op.op = "recon" ->
            IF IsId(op.text, 16) /\ (\E k \in 1..16 : Value(op.text)[k] # 0)
            THEN /\ op.obs.r = "ok"
                 /\ SetOf(op.obs.items) =
                        UNION {SetOf(f.items) : f \in {x \in SetOf(Scen(sc).fs) : Selects(op.text, x.id)}}
            ELSE op.obs.r = "err" /\ ~op.obs.made

TraceInit == sc \in 1..(Len(Trace) - 1) /\ pos = 1 /\ bad = FALSE /\ ties = {}
TraceNext ==
    /\ ~bad /\ pos <= Len(Ops) /\ UNCHANGED sc
    /\ LET op == Ops[pos]
       IN  IF Accepts(op)
           THEN /\ ties' = IF op.op \in {"collect", "sampled"} THEN ties \cup TieOrder(op.obs.list) ELSE ties
                /\ pos' = pos + 1 /\ UNCHANGED bad
           ELSE /\ PrintT("MISMATCH " \o ToJson([scenario |-> sc, step |-> pos]))
                /\ bad' = TRUE /\ UNCHANGED <<pos, ties>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == ~bad
=============================================================================
