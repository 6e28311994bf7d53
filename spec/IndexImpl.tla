------------------------------ MODULE IndexImpl ------------------------------
(* pkg/btrfs/index in the shape of the code: a handle holds a database lock,   *)
(* a bbolt transaction with its own view of the records, a count of inserts    *)
(* in flight, and a cache of chunk stripes.                                    *)
(*                                                                             *)
(* Each operation maps the state to <<result, new state>>.  Variant selects    *)
(* the behaviour of the base commit at one place (negative controls).          *)
EXTENDS Order

CONSTANTS RMax, RLast, R0, R1, R2, R3, R256, TxMax, Variant, Chunk(_)

LOCAL A == INSTANCE IndexAlgo

NoTx == [on |-> FALSE, recs |-> <<>>]
NoCache == [on |-> FALSE, map |-> <<>>]

DiskOf(kind, ver, bs, fsid, gen, recs) ==
    [kind |-> kind, ver |-> ver, bs |-> bs, fsid |-> fsid, gen |-> gen, recs |-> recs]
ImplInit == [disk |-> DiskOf("none", "ok", 0, 0, 0, <<>>), lock |-> FALSE,
             open |-> FALSE, ro |-> FALSE, gen |-> 0, tx |-> NoTx, txNum |-> 0,
             stripes |-> NoCache]

Res(r, s) == <<r, s>>
IOk == [r |-> "ok"]
IErr == [r |-> "err"]
Panic == [r |-> "panic"]

HasHeader(d) == d.kind \in {"ok", "short"}

(* bbolt.Open takes the lock; checkUpdateMetadata; ensureTx *)
DoOpen(s, ro, fs, bs, gen) ==
    LET refused(lock, disk) ==
            Res([r |-> "err", changed |-> disk # s.disk, exists |-> disk.kind # "none",
                 locked |-> lock], [s EXCEPT !.lock = lock, !.disk = disk])
        leak == Variant = "open"       \* as found: the database stays open
        opened(disk) ==
            Res(IOk, [s EXCEPT !.disk = disk, !.lock = TRUE, !.open = TRUE, !.ro = ro,
                     !.gen = gen, !.tx = [on |-> TRUE, recs |-> disk.recs], !.txNum = 0,
                     !.stripes = NoCache])
        d == s.disk
    IN  CASE ro /\ d.kind \in {"none"} ->
                 refused(FALSE, IF leak THEN [d EXCEPT !.kind = "empty"] ELSE d)
          [] d.kind = "garbage" \/ (ro /\ d.kind = "empty") -> refused(FALSE, d)
          [] ~HasHeader(d) -> IF ro THEN refused(leak, d)
                              ELSE opened([d EXCEPT !.kind = "ok", !.ver = "ok", !.bs = bs,
                                                    !.fsid = fs, !.gen = gen])
          [] d.kind = "short" \/ d.ver # "ok" -> refused(leak, d)
          [] ~ro /\ (d.bs # bs \/ d.fsid # fs) -> refused(leak, d)
          [] OTHER -> opened(d)

Begin(s) == IF s.tx.on THEN s ELSE [s EXCEPT !.tx = [on |-> TRUE, recs |-> s.disk.recs]]

DoCommit(s) ==
    IF ~s.tx.on \/ s.ro THEN Res(IOk, s)
    ELSE Res(IOk, [s EXCEPT !.disk.recs = s.tx.recs, !.tx = NoTx, !.txNum = 0])

DoInsert(s, k, d) ==
    IF s.ro THEN Res(IF Variant = "rowrite" THEN Panic ELSE IErr, s)
    ELSE IF k[1] = RMax /\ Variant # "reserved" THEN Res(IOk, s)
    ELSE LET b == Begin(s)
             put == [b EXCEPT !.tx.recs = (k :> d) @@ b.tx.recs, !.txNum = @ + 1,
                              !.stripes = IF k[2] = 228 /\ Variant # "stale" THEN NoCache ELSE @]
         IN  IF put.txNum > TxMax THEN Res(IOk, DoCommit(put)[2]) ELSE Res(IOk, put)

RECURSIVE PutRecs(_, _)
PutRecs(recs, puts) == IF puts = <<>> THEN recs
                       ELSE PutRecs((Head(puts)[1] :> Head(puts)[2]) @@ recs, Tail(puts))

DoRawTx(s, puts, fails) ==
    IF s.ro THEN Res(IErr, s)
    ELSE LET b == IF Variant = "norollback" THEN Begin(s) ELSE Begin(DoCommit(s)[2])
             put == [b EXCEPT !.tx.recs = PutRecs(@, puts),
                              !.stripes = IF Variant = "stale" THEN @ ELSE NoCache]
         IN  IF ~fails THEN Res(IOk, DoCommit(put)[2])
             ELSE IF Variant = "norollback" THEN Res(IErr, put)
             ELSE Res(IErr, [put EXCEPT !.tx = NoTx])

DoClose(s) ==
    LET c == IF s.ro THEN s ELSE DoCommit(s)[2]
    IN  Res(IOk, [c EXCEPT !.open = FALSE, !.lock = FALSE, !.tx = NoTx])

(* Death of the process: what is not committed is gone *)
DoCrash(s) == [s EXCEPT !.open = FALSE, !.lock = FALSE, !.tx = NoTx, !.txNum = 0,
                        !.stripes = NoCache]

Recs(s) == Sorted5(DOMAIN s.tx.recs \cup {A!HeaderKey})
DataOf(s, k) == s.tx.recs[k]

\* cursor(): starts a transaction if the last one was committed
Reading(s) == IF Variant = "reuse" THEN s ELSE Begin(s)

DoFind(s0, o, k) ==
    LET s == Reading(s0)
    IN  IF ~s.tx.on THEN Res(Panic, s)
        ELSE LET r == Recs(s)
                 n == A!Find(r, o, k, s.gen)
             IN  Res([r |-> "ok", list |-> IF n = 0 THEN <<>> ELSE <<DataOf(s, r[n])>>], s)

DoRange(s0, o, first, last) ==
    LET s == Reading(s0)
    IN  IF ~s.tx.on THEN Res(Panic, s)
        ELSE LET l == A!KeyRange(Recs(s), o, first, last, s.gen)
             IN  Res([r |-> "ok", list |-> [n \in 1..Len(l) |-> l[n] \o <<DataOf(s, l[n])>>]], s)

DoFull(s0) ==
    LET s == Reading(s0)
    IN  IF ~s.tx.on THEN Res(Panic, s)
        ELSE LET l == A!Full(Recs(s))
             IN  Res([r |-> "ok", list |-> [n \in 1..Len(l) |-> l[n] \o <<DataOf(s, l[n])>>]], s)

(* Physical() with its lazily built stripe map *)
DoPhys(s0, a) ==
    LET s1 == Reading(s0)
    IN  IF ~s1.tx.on THEN Res(Panic, s1)
        ELSE LET l == A!KeyRange(Recs(s1), R3, <<228, R256, R0>>, <<228, R256, RMax>>, s1.gen)
                 valid == SelectSeq(l, LAMBDA k : Chunk(s1.tx.recs[k]).ok)
                 built == [n \in 1..Len(valid) |->
                             LET c == Chunk(s1.tx.recs[valid[n]])
                             IN  [start |-> valid[n][4], len |-> c.len, dev |-> c.dev, off |-> c.off]]
                 s == IF s1.stripes.on THEN s1
                      ELSE [s1 EXCEPT !.stripes = [on |-> TRUE, map |-> built]]
                 p == A!Physical(s.stripes.map, a)
             IN  Res(IF p[1] THEN [r |-> "ok", ok |-> TRUE, dev |-> p[2], off |-> p[3], len |-> p[4]]
                     ELSE [r |-> "ok", ok |-> FALSE, dev |-> 0, off |-> 0, len |-> p[4]], s)

DoTamper(s, kind, ver, bs, fsid, gen) ==
    Res(IOk, [s EXCEPT !.disk = DiskOf(kind, ver, bs, fsid, gen,
                   IF kind \in {"nohdr", "ok", "short"} THEN s.disk.recs ELSE <<>>)])
=============================================================================
