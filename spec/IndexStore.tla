----------------------------- MODULE IndexStore -----------------------------
(* The metadata index as its users see it: a file that holds a header and     *)
(* versions of filesystem items, and at most one handle on it.                *)
(*                                                                            *)
(* Every operation Op is described by the set of its possible outcomes, an    *)
(* outcome being the observable result and the state afterwards.  The model   *)
(* checking configurations explore these outcomes, the trace specification    *)
(* compares them with what the implementation did: there is one source of     *)
(* truth for both.                                                            *)
EXTENDS Order

CONSTANTS
    RMax,      \* rank of 2^64-1, the reserved owner and the top generation
    RLast,     \* rank of the last object id (2^64-256)
    R0, R1, R2, R3, R256,  \* ranks of small constants
    MaxLag,    \* inserts that may be lost if the process dies
    ChunkOf(_),    \* data id -> [ok, len, dev, off] of a chunk item
    AddrOf(_)      \* rank -> address as a number, -1 if none

TInode == 1      TXAttr == 24     TDir == 84      TExtent == 108
TRoot == 132     TExtItem == 168  TDev == 216     TChunk == 228

-----------------------------------------------------------------------------
(* Collections of item versions: functions from version keys to data          *)

NoItems == <<>>            \* the function with the empty domain

Put(items, k, d) == (k :> d) @@ items

RECURSIVE PutAll(_, _)
PutAll(items, puts) ==
    IF puts = <<>> THEN items
    ELSE PutAll(Put(items, Head(puts)[1], Head(puts)[2]), Tail(puts))

Gens(items, o, k) ==
    {v[5] : v \in {w \in DOMAIN items : w[1] = o /\ <<w[2], w[3], w[4]>> = k}}

(* C04: the version of a key that is visible at generation G *)
VisibleGen(gens, G) ==
    LET older == {g \in gens : g <= G}
    IN  IF older # {} THEN MaxOf(older) ELSE MinOf(gens)

Lookup(items, o, k, G) ==      \* <<>> or <<data>>
    LET gens == Gens(items, o, k)
    IN  IF gens = {} THEN <<>>
        ELSE <<items[<<o, k[1], k[2], k[3], VisibleGen(gens, G)>>]>>

(* C05: every key from first to last once, in order, in its visible version *)
Listing(items, o, first, last, G) ==
    LET keys == {k \in {<<w[2], w[3], w[4]>> :
                           w \in {v \in DOMAIN items : v[1] = o}} :
                    LessEq3(first, k) /\ LessEq3(k, last)}
        entry(k) == LET g == VisibleGen(Gens(items, o, k), G)
                    IN  <<o, k[1], k[2], k[3], g,
                          items[<<o, k[1], k[2], k[3], g>>]>>
        order == Sorted3(keys)
    IN  [n \in 1..Len(order) |-> entry(order[n])]

ListAll(items, o, t, i, G) ==
    Listing(items, o, <<t, i, R0>>, <<t, i, RMax>>, G)

(* C22: every stored version once, in key order *)
FullListing(items) ==
    LET order == Sorted5(DOMAIN items)
    IN  [n \in 1..Len(order) |-> order[n] \o <<items[order[n]]>>]

(* C08: chunks that cover an address, as <<device, physical address>> *)
ChunkMap(items, G) ==
    LET l == ListAll(items, R3, TChunk, R256, G)
    IN  {c \in {[start |-> AddrOf(l[n][4]), c |-> ChunkOf(l[n][6])] :
                   n \in 1..Len(l)} : c.c.ok /\ c.start >= 0}

Mappings(chunks, a) ==
    {<<c.c.dev, c.c.off + (a - c.start)>> :
        c \in {x \in chunks : x.start <= a /\ a < x.start + x.c.len}}

(* A reported run length is sound if the answer applies to the whole run. *)
RunIsSound(chunks, a, n, mapped) ==
    LET edges == {c.start : c \in chunks} \cup {c.start + c.c.len : c \in chunks}
        last == a + n - 1
        probes == {p \in edges \cup {e - 1 : e \in edges} \cup {last} :
                      a <= p /\ p <= last}
    IN  n > 0 /\ \A p \in probes :
            IF mapped = <<>> THEN Mappings(chunks, p) = {}
            ELSE <<mapped[1], mapped[2] + (p - a)>> \in Mappings(chunks, p)

-----------------------------------------------------------------------------
(* State *)

NoFile == [kind |-> "none", ver |-> "ok", bs |-> 0, fsid |-> 0, gen |-> 0,
           items |-> NoItems]
NoHandle == [open |-> FALSE, ro |-> FALSE, gen |-> 0, view |-> NoItems,
             pend |-> <<>>]
InitState == [file |-> NoFile, h |-> NoHandle]

Out(res, st) == {[res |-> res, st |-> st]}
Ok == [r |-> "ok"]
Err == [r |-> "err"]
List(l) == [r |-> "ok", list |-> l]

Handle(ro, gen, file) == [open |-> TRUE, ro |-> ro, gen |-> gen,
                          view |-> file.items, pend |-> <<>>]

(* C06 *)
Refused(st) ==
    Out([r |-> "err", changed |-> FALSE, exists |-> st.file.kind # "none",
         locked |-> FALSE], st)

OpenOutcomes(st, ro, fsid, bs, gen) ==
    LET f == st.file
        opened(file) == Out(Ok, [file |-> file, h |-> Handle(ro, gen, file)])
        created == opened([f EXCEPT !.kind = "ok", !.ver = "ok", !.bs = bs,
                                    !.fsid = fsid, !.gen = gen])
    IN  IF ro
        THEN IF f.kind = "ok" /\ f.ver = "ok" THEN opened(f) ELSE Refused(st)
        ELSE CASE f.kind = "none" -> created
               \* whether something that is no index yet becomes one is open
               [] f.kind \in {"empty", "nobucket", "nohdr"} ->
                      created \cup Refused(st)
               [] f.kind = "ok" /\ f.ver = "ok" /\ f.bs = bs /\ f.fsid = fsid ->
                      opened(f)
               [] OTHER -> Refused(st)

(* C07 *)
Durable(st) == [st EXCEPT !.file.items = st.h.view, !.h.pend = <<>>]

InsertOutcomes(st, k, d) ==
    IF st.h.ro THEN Out(Err, st)
    ELSE IF k[1] = RMax THEN Out(Ok, st)   \* reserved for the header
    ELSE Out(Ok, [st EXCEPT !.h.view = Put(@, k, d),
                            !.h.pend = Append(@, <<k, d>>)])

CommitOutcomes(st) ==
    IF st.h.ro THEN Out(Ok, st) \cup Out(Err, st) ELSE Out(Ok, Durable(st))

CloseOutcomes(st) ==
    Out(Ok, [file |-> IF st.h.ro THEN st.file ELSE Durable(st).file,
             h |-> NoHandle])

RawTxOutcomes(st, puts, fails) ==
    IF st.h.ro THEN Out(Err, st)
    ELSE IF fails THEN Out(Err, st)   \* earlier inserts stay pending or become
                                      \* durable: CrashOutcomes has both
    ELSE Out(Ok, Durable([st EXCEPT !.h.view = PutAll(@, puts)]))

(* The process dies: committed items plus a prefix of the later inserts *)
CrashOutcomes(st) ==
    UNION {LET items == PutAll(st.file.items, SubSeq(st.h.pend, 1, n))
           IN  Out([r |-> IF st.file.kind = "ok" /\ st.file.ver = "ok"
                            THEN "ok" ELSE "err",
                    list |-> IF st.file.kind = "ok" /\ st.file.ver = "ok"
                               THEN FullListing(items) ELSE <<>>],
                   [file |-> [st.file EXCEPT !.items = items], h |-> NoHandle]) :
           n \in {m \in 0..Len(st.h.pend) : Len(st.h.pend) - m <= MaxLag}}

(* Someone else changes the closed file *)
TamperOutcomes(st, kind, ver, bs, fsid, gen) ==
    LET items == IF kind \in {"nohdr", "ok", "short"} THEN st.file.items
                 ELSE NoItems
    IN  Out(Ok, [st EXCEPT !.file = [kind |-> kind, ver |-> ver, bs |-> bs,
                                     fsid |-> fsid, gen |-> gen,
                                     items |-> items]])

FindOutcomes(st, o, k) ==
    Out(List(IF o = RMax THEN <<>> ELSE Lookup(st.h.view, o, k, st.h.gen)), st)

RangeOutcomes(st, o, first, last) ==
    Out(List(Listing(st.h.view, o, first, last, st.h.gen)), st)

FullOutcomes(st) == Out(List(FullListing(st.h.view)), st)

MetaOutcomes(st) ==
    Out([r |-> "ok", ver |-> st.file.ver, bs |-> st.file.bs,
         fsid |-> st.file.fsid, gen |-> st.file.gen], st)

DumpOutcomes(st) ==        \* dump-index, owner/key/generation only
    IF st.file.kind = "ok" /\ st.file.ver = "ok"
    THEN Out(List(Sorted5(DOMAIN st.file.items)), st)
    ELSE Out([r |-> "err", list |-> <<>>], st)

PhysOk(st, a, res) ==
    LET chunks == ChunkMap(st.h.view, st.h.gen)
        all == Mappings(chunks, a)
    IN  /\ res.r = "ok"
        /\ IF all = {} THEN ~res.ok /\ RunIsSound(chunks, a, res.len, <<>>)
           ELSE /\ res.ok
                /\ <<res.dev, res.off>> \in all
                /\ RunIsSound(chunks, a, res.len, <<res.dev, res.off>>)
=============================================================================
