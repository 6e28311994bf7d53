------------------------------ MODULE Identify ------------------------------
(* Identification of filesystems: which blocks are looked at (C18), what is   *)
(* reported about them (C19) and the text form of filesystem ids (C20).       *)
EXTENDS Integers, Sequences, FiniteSets

-----------------------------------------------------------------------------
(* Sampling.  An address is a record [q, r]: number of whole blocks before it *)
(* and the rest.  Counts of blocks can be larger than what TLC can represent, *)
(* so that the operations on them are parameters.                             *)
CONSTANTS Less(_, _), Add(_, _), Num(_)

LessA(a, b) == Less(a.q, b.q) \/ (a.q = b.q /\ a.r < b.r)
Plus(a, i) == [q |-> Add(a.q, i), r |-> a.r]

\* The block at an address lies completely inside the device
Fits(a, dev) == ~LessA(dev, Plus(a, 1))

\* The blocks near the superblock copies, each with k blocks
Near(dev, supers, k) == {a \in {Plus(s, i) : s \in supers, i \in 0..(k - 1)} : Fits(a, dev)}

Min2(a, b) == IF Less(a, b) THEN a ELSE b
Max2(a, b) == IF Less(a, b) THEN b ELSE a

SampleSize(dev, near, n) == Max2(Num(Cardinality(near)), Min2(n, dev.q))

\* How many samples are asked for: a share of the blocks, within limits
Requested(share, min, max) ==
    IF Less(share, min) THEN min ELSE IF Less(max, share) THEN max ELSE share

SampleOk(dev, supers, k, n, list) ==
    LET near == Near(dev, supers, k)
        got == {list[j] : j \in 1..Len(list)}
    IN  /\ \A j \in 1..(Len(list) - 1) : LessA(list[j], list[j + 1])
        /\ \A a \in got : Fits(a, dev) /\ (a.r = 0 \/ a \in near)
        /\ near \subseteq got
        /\ Num(Len(list)) = SampleSize(dev, near, n)

-----------------------------------------------------------------------------
(* Counting.  A block is a record [id, level, n, page, rest, times]: the      *)
(* filesystem id (0: all zero, -1: all ones), level, number of items and the  *)
(* data offset of the first item, which is 4096 * page + rest; times is how   *)
(* often there is such a block.                                               *)
Leaves(blocks, id) == {k \in DOMAIN blocks : blocks[k].id = id /\ blocks[k].level = 0}
NonEmpty(blocks, id) == {k \in Leaves(blocks, id) : blocks[k].n # 0}
Ids(blocks) == {blocks[k].id : k \in DOMAIN blocks} \ {0, -1}

RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(f, S \ {x})

Count(blocks, S) == Total([k \in S |-> blocks[k].times], S)

\* The reported block size in pages: the multiple just above the average
GuessPages(blocks, id) ==
    LET ne == NonEmpty(blocks, id)
        pages == Total([k \in ne |-> blocks[k].page * blocks[k].times], ne)
        rest == Total([k \in ne |-> blocks[k].rest * blocks[k].times], ne)
    IN  IF ne = {} THEN 1 ELSE ((pages + (rest \div 4096)) \div Count(blocks, ne)) + 1

Reported(blocks, min) ==
    {[id |-> i, count |-> Count(blocks, Leaves(blocks, i)), pages |-> GuessPages(blocks, i)] :
        i \in {x \in Ids(blocks) : Leaves(blocks, x) # {} /\ Count(blocks, Leaves(blocks, x)) >= min}}

\* What is listed, in any order among ties
EntriesOk(blocks, min, list) ==
    /\ {list[k] : k \in 1..Len(list)} = Reported(blocks, min)
    /\ Len(list) = Cardinality(Reported(blocks, min))
    /\ \A k \in 1..(Len(list) - 1) : list[k].count >= list[k + 1].count

\* The order of ties that a listing shows: pairs of ids
TieOrder(list) == {<<list[j].id, list[k].id>> : <<j, k>> \in {p \in (1..Len(list)) \X (1..Len(list)) :
                                                     p[1] < p[2] /\ list[p[1]].count = list[p[2]].count}}
Fixed(ties) == \A p \in ties : <<p[2], p[1]>> \notin ties

-----------------------------------------------------------------------------
(* Text of filesystem ids: sequences of character codes.                      *)
Dash == 45
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87
            ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
NoDash(c) == c # Dash

\* Texts that differ only in letter case and dashes have the same plain form
Plain(t) == LET s == SelectSeq(t, NoDash) IN [k \in 1..Len(s) |-> Lower(s[k])]

HexChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
\* The printed form: groups of bytes joined by dashes; dashAfter: numbers of bytes
RECURSIVE PrintedFrom(_, _, _)
PrintedFrom(id, k, dashAfter) ==
    IF k > Len(id) THEN <<>>
    ELSE <<HexChar(id[k] \div 16), HexChar(id[k] % 16)>>
         \o (IF k \in dashAfter THEN <<Dash>> ELSE <<>>) \o PrintedFrom(id, k + 1, dashAfter)
Printed(id, dashAfter) == PrintedFrom(id, 1, dashAfter)
Standard == {4, 6, 8, 10}

Selects(t, id) == Plain(t) = Plain(Printed(id, {}))
IsId(t, n) == LET p == Plain(t) IN Len(p) = 2 * n /\ \A k \in 1..Len(p) : Digit(p[k]) # -1
Value(t) == LET p == Plain(t) IN [k \in 1..(Len(p) \div 2) |-> Digit(p[2 * k - 1]) * 16 + Digit(p[2 * k])]
=============================================================================
