------------------------------- MODULE MCRecon -------------------------------
(* The scan loop in the shape of cmd/recon.go and leaf.go, over all short     *)
(* sequences of blocks, with periodic commits, kills and reruns.  Images use  *)
(* a header of one byte and item headers of two bytes.                        *)
EXTENDS Order

CONSTANTS BlockKinds, NumBlocks, TxMax, Runs, Variant

HLen == 1
ILen == 2
Super == 0
Top == 9
INSTANCE Recon WITH HeaderLen <- HLen, ItemLen <- ILen, SuperOffset <- Super, ReservedOwner <- Top

BS == 6                              \* two item headers fit
Kind(b) == CASE
    \* good leaves; 2 and 3 hold the same item
    b = "a"  -> [fsid |-> 1, level |-> 0, n |-> 2, owner |-> 5, gen |-> 3,
                 slots |-> <<[k |-> <<1, 1, 0>>, off |-> 4, size |-> 1], [k |-> <<1, 2, 0>>, off |-> 4, size |-> 0]>>]
 [] b = "a2" -> [fsid |-> 1, level |-> 0, n |-> 1, owner |-> 5, gen |-> 3,
                 slots |-> <<[k |-> <<1, 1, 0>>, off |-> 3, size |-> 2], [k |-> <<1, 9, 0>>, off |-> 0, size |-> 0]>>]
    \* another version
 [] b = "v"  -> [fsid |-> 1, level |-> 0, n |-> 1, owner |-> 5, gen |-> 4,
                 slots |-> <<[k |-> <<1, 1, 0>>, off |-> 4, size |-> 1], [k |-> <<0, 0, 0>>, off |-> 0, size |-> 0]>>]
    \* foreign, interior, empty
 [] b = "f"  -> [fsid |-> 2, level |-> 0, n |-> 1, owner |-> 5, gen |-> 3,
                 slots |-> <<[k |-> <<1, 1, 0>>, off |-> 4, size |-> 1], [k |-> <<0, 0, 0>>, off |-> 0, size |-> 0]>>]
 [] b = "i"  -> [fsid |-> 1, level |-> 1, n |-> 1, owner |-> 5, gen |-> 3,
                 slots |-> <<[k |-> <<1, 3, 0>>, off |-> 4, size |-> 1], [k |-> <<0, 0, 0>>, off |-> 0, size |-> 0]>>]
 [] b = "e"  -> [fsid |-> 1, level |-> 0, n |-> 0, owner |-> 5, gen |-> 3,
                 slots |-> <<[k |-> <<1, 4, 0>>, off |-> 4, size |-> 1], [k |-> <<0, 0, 0>>, off |-> 0, size |-> 0]>>]
    \* damaged: item count, data offset, data size, owner
 [] b = "dn" -> [fsid |-> 1, level |-> 0, n |-> 100, owner |-> 5, gen |-> 3,
                 slots |-> <<[k |-> <<1, 5, 0>>, off |-> 4, size |-> 1], [k |-> <<1, 6, 0>>, off |-> 2, size |-> 1]>>]
 [] b = "do" -> [fsid |-> 1, level |-> 0, n |-> 2, owner |-> 5, gen |-> 3,
                 slots |-> <<[k |-> <<1, 5, 0>>, off |-> 40, size |-> 1], [k |-> <<1, 5, 0>>, off |-> 5, size |-> 50]>>]
 [] b = "dr" -> [fsid |-> 1, level |-> 0, n |-> 1, owner |-> Top, gen |-> Top,
                 slots |-> <<[k |-> <<255, Top, Top>>, off |-> 4, size |-> 1], [k |-> <<0, 0, 0>>, off |-> 0, size |-> 0]>>]

\* Super block at 0, scan starts at BS; the last block is cut off
Image(kinds, size) == [bs |-> BS, size |-> <<0, size>>,
                       blocks |-> [n \in 1..Len(kinds) |-> [at |-> <<0, (n - 1) * BS>>] @@ Kind(kinds[n])]]

VARIABLES img,        \* the image
          phase,      \* "run", "dead", "done", "panic"
          off,        \* offset of the current block
          slot,       \* next item of it
          pend, num,  \* index as the open transaction sees it, inserts in it
          disk, hdr,  \* committed items; is the header record intact
          base,       \* items on disk when the current run started
          runs
vars == <<img, phase, off, slot, pend, num, disk, hdr, base, runs>>

SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}

Init ==
    /\ \E kinds \in SeqsUpTo(BlockKinds, NumBlocks), cut \in {0, 1} :
          img = Image(kinds, IF Len(kinds) = 0 THEN BS ELSE Len(kinds) * BS - cut)
    /\ phase = "run" /\ off = BS /\ slot = 1 /\ runs = 1
    /\ pend = <<>> /\ num = 0 /\ disk = <<>> /\ hdr = TRUE /\ base = <<>>

DevEnd == img.size[2] - (img.size[2] % BS)
Blk == off \div BS + 1
B == img.blocks[Blk]

Skip == B.fsid # 1 \/ B.n = 0 \/ B.level # 0

MaxItems == CASE Variant = "len" -> BS \div ILen           \* off by the header
             [] OTHER -> (BS - HLen) \div ILen
Count == IF B.n > MaxItems THEN MaxItems ELSE B.n

(* The slice of the block an item's data are taken from, <<-1, -1>> for a     *)
(* slice out of bounds                                                        *)
Slice(it) ==
    CASE Variant = "noclamp" -> IF HLen + it.off + it.size > BS THEN <<-1, -1>>
                                ELSE <<HLen + it.off, HLen + it.off + it.size>>
      [] OTHER -> LET o == Min2(HLen + it.off, BS) IN <<o, Min2(o + it.size, BS)>>

Commit == disk' = pend /\ num' = 0

NextBlock ==
    /\ off < DevEnd /\ (Skip \/ slot > Count)
    /\ off' = off + BS /\ slot' = 1
    /\ UNCHANGED <<img, phase, pend, num, disk, hdr, base, runs>>

InsertStep ==
    /\ off < DevEnd /\ ~Skip /\ slot <= Count
    /\ IF slot > Len(B.slots) \/ Slice(B.slots[slot])[1] < 0
       THEN phase' = "panic" /\ UNCHANGED <<img, off, slot, pend, num, disk, hdr, base, runs>>
       ELSE /\ slot' = slot + 1
            /\ UNCHANGED <<img, off, base, runs, phase>>
            /\ IF B.owner = Top /\ Variant # "reserved"
               THEN UNCHANGED <<pend, num, disk, hdr>>
               ELSE IF B.owner = Top
               THEN hdr' = FALSE /\ UNCHANGED <<pend, num, disk>>
               ELSE LET k == KeyAt(B, slot)
                        new == IF Variant = "firstwins" /\ k \in DOMAIN pend THEN pend
                               ELSE (k :> <<1, Blk, slot>>) @@ pend
                    IN  /\ pend' = new /\ UNCHANGED hdr
                        /\ IF num + 1 > TxMax THEN disk' = new /\ num' = 0
                                              ELSE num' = num + 1 /\ UNCHANGED disk

Finish ==
    /\ off >= DevEnd
    /\ Commit /\ phase' = "done"
    /\ UNCHANGED <<img, off, slot, pend, hdr, base, runs>>

Kill ==
    /\ phase' = "dead" /\ UNCHANGED <<img, off, slot, pend, num, disk, hdr, base, runs>>

Rerun ==
    /\ phase \in {"dead", "done"} /\ runs < Runs
    /\ phase' = "run" /\ off' = BS /\ slot' = 1 /\ runs' = runs + 1
    /\ pend' = disk /\ num' = 0 /\ base' = disk
    /\ UNCHANGED <<img, disk, hdr>>

Next == \/ phase = "run" /\ (NextBlock \/ InsertStep \/ Finish \/ Kill)
        \/ Rerun
Spec == Init /\ [][Next]_vars /\ WF_vars(phase = "run" /\ (NextBlock \/ InsertStep \/ Finish))

NoPanic == phase # "panic"
HeaderIntact == hdr
Complete == phase = "done" => disk = After(base, img, 1, 1)
CrashSafe == disk \in Interrupted(base, img, 1, 1)
\* A rerun ends as an uninterrupted scan does
SameAsOnce == phase = "done" => disk = After(<<>>, img, 1, 1)
Terminates == []<>(phase # "run")
=============================================================================
