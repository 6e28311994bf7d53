----------------------------- MODULE TraceScan ------------------------------
(* Conformance of interrupted scans of images with many items.                *)
(*                                                                            *)
(* The items of an image are numbered in scan order; item p has the key       *)
(* number ((p - 1) % period) + 1, so that an index that holds the first k     *)
(* items shows the items max(1, k - period + 1)..k.  An observation gives the *)
(* numbers of the items found as runs, and how many were found that are not   *)
(* an item of the image.  A file that is not an index yet (the scan was       *)
(* killed while creating it) must not have items stored in it.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Scen(n) == Trace[n + 1]

VARIABLES sc, pos, st, bad
vars == <<sc, pos, st, bad>>
Ops == Scen(sc).ops
N == Scen(sc).items
Period == Scen(sc).period

Window(k) == IF k = 0 THEN <<>>
             ELSE <<<<IF k > Period THEN k - Period + 1 ELSE 1, k>>>>

\* Number of collected items that the file shows, -1 if it is none
Shown(obs) ==
    IF obs.r \in {"none", "noindex"} THEN IF obs.stored = 0 THEN 0 ELSE -1
    ELSE IF obs.r # "ok" \/ obs.bad # 0 THEN -1
    ELSE IF obs.runs = <<>> THEN 0
    ELSE LET k == obs.runs[Len(obs.runs)][2]
         IN  IF k <= N /\ obs.runs = Window(k) THEN k ELSE -1

(* A killed scan leaves a prefix behind, and never less than what was there   *)
(* before.  (Images with repeated keys are only killed once: a second scan    *)
(* may have collected the first items again.)                                 *)
Killed(obs) == Shown(obs) >= st
Finished(obs) == obs.exit = "ok" /\ Shown(obs) = N

(* Something failed: the scan says so, or it was able to do without.          *)
Failed(obs) == \/ obs.exit = "err" /\ obs.told /\ Shown(obs) >= st
               \/ Finished(obs)

(* identify: no listing is as good as one that leaves something out           *)
Sampled(op) == IF op.failed THEN op.obs.exit = "err" /\ op.obs.told ELSE op.obs.exit = "ok"

Accepts(op) == CASE op.op = "failed" -> Failed(op.obs)
                 [] op.op = "sample" -> Sampled(op)
                 [] op.op = "killed" -> Killed(op.obs)
                 [] op.op = "scan" -> Finished(op.obs)

TraceInit == sc \in 1..(Len(Trace) - 1) /\ pos = 1 /\ st = 0 /\ bad = FALSE
TraceNext ==
    /\ ~bad /\ pos <= Len(Ops) /\ sc' = sc
    /\ IF Accepts(Ops[pos])
       THEN st' = Shown(Ops[pos].obs) /\ pos' = pos + 1 /\ bad' = FALSE
       ELSE /\ PrintT("MISMATCH " \o ToJson([scenario |-> sc, step |-> pos, collected |-> st]))
            /\ bad' = TRUE /\ UNCHANGED <<pos, st>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == ~bad
=============================================================================
