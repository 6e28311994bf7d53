---------------------------- MODULE MCIndexStore ----------------------------
(* The abstract index as a state machine, with the properties C06 and C07     *)
(* stated independently of how its outcomes are defined.                      *)
EXTENDS Order

CONSTANTS RMax, RLast, R0, R1, R2, R3, R256, MaxLag, Keys, Data, MaxPend, Kinds

MChunkOf(d) == [ok |-> FALSE]
MAddrOf(r) == r
INSTANCE IndexStore WITH ChunkOf <- MChunkOf, AddrOf <- MAddrOf

VARIABLES st, last      \* last: the operation and its result
vars == <<st, last>>

Open(ro, fs, bs) ==
    /\ ~st.h.open
    /\ \E out \in OpenOutcomes(st, ro, fs, bs, RMax) :
          st' = out.st /\ last' = [op |-> "open", ro |-> ro, fs |-> fs, bs |-> bs, res |-> out.res]
Insert(k, d) ==
    /\ st.h.open /\ Len(st.h.pend) < MaxPend
    /\ \E out \in InsertOutcomes(st, k, d) :
          st' = out.st /\ last' = [op |-> "insert", k |-> k, d |-> d, res |-> out.res]
Commit ==
    /\ st.h.open
    /\ \E out \in CommitOutcomes(st) : st' = out.st /\ last' = [op |-> "commit", res |-> out.res]
Close ==
    /\ st.h.open
    /\ \E out \in CloseOutcomes(st) : st' = out.st /\ last' = [op |-> "close", res |-> out.res]
RawTx(puts, fails) ==
    /\ st.h.open
    /\ \E out \in RawTxOutcomes(st, puts, fails) :
          st' = out.st /\ last' = [op |-> "rawtx", fails |-> fails, res |-> out.res]
Crash ==
    /\ st.h.open
    /\ \E out \in CrashOutcomes(st) : st' = out.st /\ last' = [op |-> "crash", res |-> [r |-> out.res.r]]
Tamper(kind, ver) ==
    /\ ~st.h.open
    /\ \E out \in TamperOutcomes(st, kind, ver, 1, 1, 1) :
          st' = out.st /\ last' = [op |-> "tamper", res |-> out.res]

Init == st = InitState /\ last = [op |-> "none", res |-> Ok]
Next ==
    \/ \E ro \in BOOLEAN, fs \in 1..2, bs \in 1..2 : Open(ro, fs, bs)
    \/ \E k \in Keys, d \in Data : Insert(k, d)
    \/ Commit \/ Close \/ Crash
    \/ \E k \in {x \in Keys : x[1] # RMax}, d \in Data, fails \in BOOLEAN : RawTx(<<<<k, d>>>>, fails)
    \/ \E kind \in Kinds, ver \in {"old", "ok", "new"} :
          (kind = "ok" \/ ver = "ok") /\ Tamper(kind, ver)
Spec == Init /\ [][Next]_vars

ViewIsFilePlusPending ==
    st.h.open => st.h.view = PutAll(st.file.items, st.h.pend)
ClosedIsDurable == ~st.h.open => st.h = NoHandle
HeaderAlwaysThere == st.h.open => st.file.kind = "ok" /\ st.file.ver = "ok"
ReservedOwnerNeverStored ==
    \A k \in DOMAIN st.file.items \cup DOMAIN st.h.view : k[1] # RMax

(* C06 *)
RefusalChangesNothing ==
    [][last'.op = "open" /\ last'.res.r = "err" =>
          st' = st /\ ~last'.res.changed /\ ~last'.res.locked
          /\ (last'.res.exists <=> st.file.kind # "none")]_vars
OnlyMatchingOpens ==
    [][last'.op = "open" /\ last'.res.r = "ok" /\ st.file.kind = "ok" =>
          /\ st.file.ver = "ok"
          /\ ~last'.ro => st.file.fsid = last'.fs /\ st.file.bs = last'.bs
          /\ st'.file = st.file]_vars
ReadingCreatesNothing ==
    [][last'.op = "open" /\ last'.ro => st'.file = st.file]_vars

(* C07 *)
InsertVisibleAtOnce ==
    [][last'.op = "insert" /\ last'.res.r = "ok" /\ last'.k[1] # RMax =>
          Lookup(st'.h.view, last'.k[1], <<last'.k[2], last'.k[3], last'.k[4]>>, last'.k[5])
            = <<last'.d>>]_vars
CommittedSurvives ==    \* durable after commit or close, whatever happens then
    [][last'.op \in {"commit", "close"} /\ last'.res.r = "ok" /\ ~st.h.ro =>
          st'.file.items = st.h.view]_vars
CrashLosesOnlyASuffix ==
    [][last'.op = "crash" =>
          \E n \in 0..Len(st.h.pend) :
              /\ Len(st.h.pend) - n <= MaxLag
              /\ st'.file.items = PutAll(st.file.items, SubSeq(st.h.pend, 1, n))]_vars
FailureChangesNothing ==
    [][last'.op \in {"rawtx", "insert"} /\ last'.res.r = "err" =>
          st'.h.view = st.h.view /\ st'.h.open]_vars
FailingTransactionReports ==
    [][last'.op = "rawtx" => (last'.res.r = "err" <=> last'.fails \/ st.h.ro)]_vars
=============================================================================
