------------------------------ MODULE IndexAlgo ------------------------------
(* The algorithms of pkg/btrfs/index on the sorted records of the key-value   *)
(* store, in the shape of the code: cursor movements, the range cursor, the   *)
(* stripe map.  recs is the sorted sequence of record keys, including the     *)
(* header record, which always sorts last.                                    *)
EXTENDS Order

CONSTANTS RMax, RLast, R0, Variant

HeaderKey == <<RMax, 255, RLast, RMax, RMax>>

SamePrefix(a, b) == \A n \in 1..4 : a[n] = b[n]

\* bbolt: position of the first record at or after a key, Len+1 if none
Seek(recs, k) ==
    LET geq == {n \in 1..Len(recs) : LessEq5(k, recs[n])}
    IN  IF geq = {} THEN Len(recs) + 1 ELSE MinOf(geq)

-----------------------------------------------------------------------------
(* find(): position of the visible version, 0 if there is none                *)
FindNow(recs, o, k, G) ==
    LET search == <<o, k[1], k[2], k[3], G>>
        n == Seek(recs, search)
        p == IF n > Len(recs) THEN Len(recs) ELSE n - 1
    IN  IF SamePrefix(search, HeaderKey) THEN 0
        ELSE IF n <= Len(recs) /\ recs[n] = search THEN n
        ELSE IF p >= 1 /\ SamePrefix(recs[p], search) THEN p
        ELSE IF n <= Len(recs) /\ SamePrefix(recs[n], search) THEN n
        ELSE 0

(* Range.seek(), Range.Next() *)
SeekRange(recs, ik, G) ==
    LET n == Seek(recs, ik)
    IN  IF n > Len(recs) THEN 0
        ELSE FindNow(recs, recs[n][1], <<recs[n][2], recs[n][3], recs[n][4]>>, G)

RECURSIVE WalkNow(_, _, _, _)
WalkNow(recs, n, end, G) ==
    IF n = 0 THEN <<>>
    ELSE IF ~LessEq5(recs[n], end) THEN <<>>
    ELSE <<recs[n]>> \o
         WalkNow(recs,
                 \* just after every version of the current key
                 SeekRange(recs, [recs[n] EXCEPT ![5] = RMax + 1], G), end, G)

RangeNow(recs, o, first, last, G) ==
    WalkNow(recs, SeekRange(recs, <<o, first[1], first[2], first[3], 0>>, G),
            <<o, last[1], last[2], last[3], RMax>>, G)

-----------------------------------------------------------------------------
(* The same as found at the base commit: kept as negative controls            *)
LessEqPrefix(a, b) == SamePrefix(a, b) \/ Less5([a EXCEPT ![5] = 0], [b EXCEPT ![5] = 0])

FindAsFound(recs, o, k, G) ==
    LET search == <<o, k[1], k[2], k[3], G>>
        n == Seek(recs, search)
    IN  IF n > Len(recs) THEN 0
        ELSE IF LessEqPrefix(recs[n], search) THEN n
        ELSE IF n > 1 /\ SamePrefix(recs[n - 1], search) THEN n - 1
        ELSE 0

FindNextAsFound(recs, ik) ==
    LET n == Seek(recs, [ik EXCEPT ![5] = RMax])
    IN  IF n > Len(recs) THEN 0
        ELSE LET s == <<ik[1], recs[n][2], recs[n][3], recs[n][4], ik[5]>>
                 m == Seek(recs, s)
             IN  IF m <= Len(recs) /\ LessEq5(recs[m], s) THEN m ELSE 0

RECURSIVE LowerBoundAsFound(_, _, _)
LowerBoundAsFound(recs, n, G) ==
    IF n + 1 <= Len(recs) /\ SamePrefix(recs[n + 1], recs[n]) /\ recs[n + 1][5] <= G
    THEN LowerBoundAsFound(recs, n + 1, G)
    ELSE n

RECURSIVE WalkAsFound(_, _, _)
WalkAsFound(recs, n, end) ==
    IF n = 0 THEN <<>>
    ELSE IF ~LessEq5(recs[n], end) THEN <<>>
    ELSE <<recs[n]>> \o WalkAsFound(recs, FindNextAsFound(recs, recs[n]), end)

RangeAsFound(recs, o, first, last, G) ==
    LET n == Seek(recs, <<o, first[1], first[2], R0, 0>>)
        start == IF n > Len(recs) THEN 0
                 ELSE IF recs[n][1] # o \/ recs[n][2] # first[1] \/ recs[n][3] # first[2]
                 THEN 0
                 ELSE LET l == recs[LowerBoundAsFound(recs, n, G)]
                      IN  FindAsFound(recs, o, <<l[2], l[3], l[4]>>, G)
    IN  WalkAsFound(recs, start, <<o, last[1], last[2], last[3], G>>)

-----------------------------------------------------------------------------
Find(recs, o, k, G) == IF Variant = "find" THEN FindAsFound(recs, o, k, G)
                                           ELSE FindNow(recs, o, k, G)
KeyRange(recs, o, first, last, G) ==
    IF Variant = "range" THEN RangeAsFound(recs, o, first, last, G)
                         ELSE RangeNow(recs, o, first, last, G)

(* FullRange: from the first record up to the header *)
RECURSIVE FullWalk(_, _)
FullWalk(recs, n) ==
    IF n > Len(recs) \/ recs[n] = HeaderKey THEN <<>>
    ELSE <<recs[n]>> \o FullWalk(recs, n + 1)
Full(recs) == FullWalk(recs, 1)

-----------------------------------------------------------------------------
(* Physical(): stripes is the sequence of first stripes sorted by address.    *)
(* The result is <<mapped, device, physical address, run length>>.            *)
TopOfMemory == 1000000

RECURSIVE SearchBack(_, _, _, _)
SearchBack(stripes, i, a, length) ==
    IF i = 0 THEN <<FALSE, 0, 0, length>>
    ELSE LET s == stripes[i]
             delta == a - s.start
         IN  IF delta < s.len
             THEN <<TRUE, s.dev, s.off + delta,
                    IF s.len - delta < length THEN s.len - delta ELSE length>>
             ELSE IF Variant = "phys" THEN <<TRUE, s.dev, s.off + delta, length>>
             ELSE SearchBack(stripes, i - 1, a, length)

Physical(stripes, a) ==
    LET after == {n \in 1..Len(stripes) : stripes[n].start > a}
        i == IF after = {} THEN Len(stripes) + 1 ELSE MinOf(after)
    IN  SearchBack(stripes, i - 1, a,
                   IF i <= Len(stripes) THEN stripes[i].start - a ELSE TopOfMemory - a)
=============================================================================
