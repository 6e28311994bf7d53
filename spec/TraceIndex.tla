----------------------------- MODULE TraceIndex -----------------------------
(* Conformance of recorded index behaviours: each scenario is a sequence of   *)
(* operations with what the implementation returned; every step has to be an  *)
(* outcome that IndexStore allows in the current state.                       *)
EXTENDS Order, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
H == Trace[1]                      \* palette and data tables
Scen(n) == Trace[n + 1]
NumScen == Len(Trace) - 1

TMax == H.max
TLast == H.last
T0 == H.r0
T1 == H.r1
T2 == H.r2
T3 == H.r3
T256 == H.r256
TLag == 10001
TChunkOf(d) == H.chunks[d]
TAddrOf(r) == H.addrs[r]

CONSTANTS RMax, RLast, R0, R1, R2, R3, R256, MaxLag, ChunkOf(_), AddrOf(_)
INSTANCE IndexStore

VARIABLES sc, pos, st, bad
vars == <<sc, pos, st, bad>>

Ops == Scen(sc).ops

K(op) == <<op.t, op.i, op.f>>

Outcomes(op) ==
    CASE op.op = "open" -> OpenOutcomes(st, op.ro, op.fsid, op.bs, op.gen)
      [] op.op = "insert" -> InsertOutcomes(st, <<op.o, op.t, op.i, op.f, op.g>>, op.d)
      [] op.op = "commit" -> CommitOutcomes(st)
      [] op.op = "close" -> CloseOutcomes(st)
      [] op.op = "rawtx" -> RawTxOutcomes(st, op.puts, op.fail)
      [] op.op = "crash" -> CrashOutcomes(st)
      [] op.op = "tamper" -> TamperOutcomes(st, op.kind, op.ver, op.bs, op.fsid, op.gen)
      [] op.op \in {"find", "find_extitem", "find_inode", "find_extent"} ->
             FindOutcomes(st, op.o, K(op))
      [] op.op = "range" -> RangeOutcomes(st, op.o, K(op), <<op.t2, op.i2, op.f2>>)
      [] op.op = "rall" -> RangeOutcomes(st, op.o, <<op.t, op.i, R0>>, <<op.t, op.i, RMax>>)
      [] op.op = "dir" -> RangeOutcomes(st, op.o, <<TDir, op.i, R0>>, <<TDir, op.i, RMax>>)
      [] op.op = "xattr" -> RangeOutcomes(st, op.o, <<TXAttr, op.i, R0>>, <<TXAttr, op.i, RMax>>)
      [] op.op = "ext" -> RangeOutcomes(st, op.o, <<TExtent, op.i, R0>>, <<TExtent, op.i, RMax>>)
      [] op.op = "chunks" -> RangeOutcomes(st, R3, <<TChunk, R256, R0>>, <<TChunk, R256, RMax>>)
      [] op.op = "devs" -> RangeOutcomes(st, R3, <<TDev, R1, R0>>, <<TDev, R1, RMax>>)
      [] op.op = "subvols" -> RangeOutcomes(st, R1, <<TRoot, R256, R0>>, <<TRoot, RLast, RMax>>)
      [] op.op = "full" -> FullOutcomes(st)
      [] op.op = "meta" -> MetaOutcomes(st)
      [] op.op = "dump" -> DumpOutcomes(st)
      [] op.op = "phys" -> IF PhysOk(st, op.a, op.obs) THEN Out(op.obs, st) ELSE {}

Matching(op) == {out \in Outcomes(op) : out.res = op.obs}

TraceInit ==
    /\ sc \in 1..NumScen
    /\ pos = 1
    /\ st = InitState
    /\ bad = FALSE

TraceNext ==
    /\ ~bad
    /\ pos <= Len(Ops)
    /\ sc' = sc
    /\ LET op == Ops[pos]
           m == Matching(op)
       IN  IF m # {}
           THEN /\ \E out \in m : st' = out.st
                /\ pos' = pos + 1
                /\ bad' = FALSE
           ELSE /\ PrintT("MISMATCH " \o ToJson([scenario |-> sc, step |-> pos,
                             allowed |-> {out.res : out \in Outcomes(op)}]))
                /\ bad' = TRUE
                /\ UNCHANGED <<pos, st>>

TraceSpec == TraceInit /\ [][TraceNext]_vars

Conforms == ~bad
=============================================================================
