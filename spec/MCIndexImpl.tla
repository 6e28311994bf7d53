----------------------------- MODULE MCIndexImpl -----------------------------
(* IndexImpl refines IndexStore: both take every operation in lockstep, each  *)
(* result of the implementation has to be among the outcomes of the abstract  *)
(* index, and both must then hold the same items.                             *)
EXTENDS Order

CONSTANTS RMax, RLast, R0, R1, R2, R3, R256, TxMax, MaxLag, Variant,
          Keys, Data, Kinds, MaxPend, Addrs, Opens

MChunk(d) == IF d = 9 THEN [ok |-> FALSE, len |-> 0, dev |-> 0, off |-> 0]
             ELSE [ok |-> TRUE, len |-> d, dev |-> d, off |-> 10 * d]
MAddr(r) == r
S == INSTANCE IndexStore WITH ChunkOf <- MChunk, AddrOf <- MAddr
I == INSTANCE IndexImpl WITH Chunk <- MChunk

VARIABLES abs, impl, bad
vars == <<abs, impl, bad>>

Init == abs = S!InitState /\ impl = I!ImplInit /\ bad = "none"

Step(name, out, outs) ==          \* out = <<result, state>> of the implementation
    LET m == {x \in outs : x.res = out[1]}
    IN  IF m = {} THEN bad' = name /\ UNCHANGED <<abs, impl>>
        ELSE /\ \E x \in m : abs' = x.st
             /\ impl' = out[2] /\ bad' = "none"

Open(ro, fs, bs, g) ==
    ~abs.h.open /\ ~impl.open
    /\ Step("open", I!DoOpen(impl, ro, fs, bs, g), S!OpenOutcomes(abs, ro, fs, bs, g))
Insert(k, d) ==
    abs.h.open /\ Len(abs.h.pend) < MaxPend
    /\ Step("insert", I!DoInsert(impl, k, d), S!InsertOutcomes(abs, k, d))
Commit == abs.h.open /\ Step("commit", I!DoCommit(impl), S!CommitOutcomes(abs))
RawTx(k, d, fails) ==
    abs.h.open /\ Step("rawtx", I!DoRawTx(impl, <<<<k, d>>>>, fails),
                       S!RawTxOutcomes(abs, <<<<k, d>>>>, fails))
Close == abs.h.open /\ Step("close", I!DoClose(impl), S!CloseOutcomes(abs))
Crash ==        \* the abstract outcome has to hold the items that are on disk
    /\ abs.h.open
    /\ LET m == {x \in S!CrashOutcomes(abs) : x.st.file.items = impl.disk.recs}
       IN  IF m = {} THEN bad' = "crash" /\ UNCHANGED <<abs, impl>>
           ELSE (\E x \in m : abs' = x.st) /\ impl' = I!DoCrash(impl) /\ bad' = "none"
Tamper(kind, ver, bs) ==
    ~abs.h.open /\ Step("tamper", I!DoTamper(impl, kind, ver, bs, 1, 1),
                        S!TamperOutcomes(abs, kind, ver, bs, 1, 1))
Find(k) == abs.h.open /\ Step("find", I!DoFind(impl, k[1], <<k[2], k[3], k[4]>>),
                               S!FindOutcomes(abs, k[1], <<k[2], k[3], k[4]>>))
All == abs.h.open /\ Step("range", I!DoRange(impl, 1, <<0, 0, 0>>, <<255, RMax, RMax>>),
                           S!RangeOutcomes(abs, 1, <<0, 0, 0>>, <<255, RMax, RMax>>))
Full == abs.h.open /\ Step("full", I!DoFull(impl), S!FullOutcomes(abs))
Phys(a) ==
    /\ abs.h.open
    /\ LET out == I!DoPhys(impl, a)
       IN  Step("phys", out, IF S!PhysOk(abs, a, out[1]) THEN S!Out(out[1], abs) ELSE {})

Next ==
    /\ bad = "none"
    /\ \/ \E o \in Opens : Open(o[1], o[2], o[3], o[4])
       \/ \E k \in Keys, d \in Data : Insert(k, d)
       \/ Commit \/ Close \/ Crash \/ All \/ Full
       \/ \E k \in Keys, d \in Data, f \in BOOLEAN : k[1] # RMax /\ RawTx(k, d, f)
       \/ \E kind \in Kinds, ver \in {"old", "ok", "new"}, bs \in {1, 2} :
             (kind = "ok" \/ (ver = "ok" /\ bs = 1)) /\ Tamper(kind, ver, bs)
       \/ \E k \in Keys : Find(k)
       \/ \E a \in Addrs : Phys(a)
Spec == Init /\ [][Next]_vars

Refines == bad = "none"
SameView ==
    bad = "none" /\ abs.h.open =>
        /\ impl.open
        /\ abs.h.view = IF impl.tx.on THEN impl.tx.recs ELSE impl.disk.recs
LockedWhileOpen == bad = "none" => impl.lock = impl.open
=============================================================================
