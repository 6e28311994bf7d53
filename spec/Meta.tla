-------------------------------- MODULE Meta --------------------------------
(* Stored filesystem metadata and what it means: inodes, directory entries,   *)
(* extended attributes, file extents, subvolumes.                             *)
(*                                                                            *)
(* Metadata is a sequence of items [k |-> <<owner, type, object, offset,      *)
(* generation>>, d |-> its bytes, cut into fields].  The index is read at the *)
(* top generation, so that the newest version of a key is the one that counts.*)
(* A malformed newest version means that the key has no item (C21).           *)
EXTENDS Order

CONSTANTS M0, MFirst, MLast,   \* ranks of 0, 256 and 2^64-256
          MFs, MRootTree,      \* ranks of 5 and 1
          MChunkTree           \* rank of 3

TInode == 1   TXAttr == 24   TDirItem == 84   TExtentData == 108   TRootItem == 132
TChunk == 228

FtFile == 1   FtDir == 2   FtChr == 3   FtBlk == 4   FtFifo == 5   FtSock == 6   FtLink == 7

Key4(k) == <<k[1], k[2], k[3], k[4]>>

(* The newest versions of all keys of some type *)
Newest(items, t) ==
    LET of == {n \in 1..Len(items) : items[n].k[2] = t}
    IN  {n \in of : \A m \in of : Key4(items[m].k) = Key4(items[n].k) =>
                                  items[m].k[5] <= items[n].k[5]}

-----------------------------------------------------------------------------
(* Well-formed items *)

InodeOk(d) == d.len >= 160

EntryHeader == 30
EntryComplete(d, e) == e.at + EntryHeader + e.nlen + e.dlen <= d.len
EntryNamed(e) == e.nlen \in 1..255
GoodEntries(d) == {n \in 1..Len(d.ents) : EntryComplete(d, d.ents[n]) /\ EntryNamed(d.ents[n])}

ExtentHeader == 21
ExtentOk(d) ==
    /\ d.len >= ExtentHeader
    /\ \/ d.type = 0 /\ d.ram <= d.len - ExtentHeader
       \/ d.type \in {1, 2} /\ d.len >= 53 /\ ~d.wrap

-----------------------------------------------------------------------------
(* Objects are pairs <<owner, inode number>> *)

\* Function from objects to the fields of their inode items
Inodes(items) ==
    LET good == {n \in Newest(items, TInode) : items[n].k[4] = M0 /\ InodeOk(items[n].d)}
        obj(n) == <<items[n].k[1], items[n].k[3]>>
    IN  [o \in {obj(n) : n \in good} |-> items[CHOOSE n \in good : obj(n) = o].d]

\* The object a directory entry refers to
Target(owner, e) == IF e.lt = TRootItem THEN <<e.lo, MFirst>> ELSE <<owner, e.lo>>

\* Function from directories to their sets of entries
EntriesOf(items, t) ==
    LET new == Newest(items, t)
        obj(n) == <<items[n].k[1], items[n].k[3]>>
    IN  [o \in {obj(n) : n \in new} |->
            UNION {{[name |-> items[n].d.ents[q].name, type |-> items[n].d.ents[q].type,
                     target |-> Target(o[1], items[n].d.ents[q]),
                     sub |-> items[n].d.ents[q].lt = TRootItem,
                     loc |-> items[n].d.ents[q].lo, val |-> items[n].d.ents[q].val]
                        : q \in GoodEntries(items[n].d)}
                   : n \in {m \in new : obj(m) = o}}]

At(f, x, default) == IF x \in DOMAIN f THEN f[x] ELSE default

\* Function from files to their sets of extents
ExtentsOf(items) ==
    LET new == {n \in Newest(items, TExtentData) : ExtentOk(items[n].d)}
        obj(n) == <<items[n].k[1], items[n].k[3]>>
    IN  [o \in {obj(n) : n \in new} |->
            {[pos |-> items[n].d.pos, gen |-> items[n].k[5], d |-> items[n].d]
                : n \in {m \in new : obj(m) = o}}]

Subvolumes(items) ==
    {items[n].k[3] : n \in {m \in Newest(items, TRootItem) :
         items[m].k[1] = MRootTree /\ MFirst <= items[m].k[3] /\ items[m].k[3] <= MLast}}

\* Chunks that cover logical addresses
ChunksOf(items) ==
    {[start |-> items[n].d.start, len |-> items[n].d.clen, phys |-> items[n].d.phys]
        : n \in {m \in Newest(items, TChunk) :
               items[m].k[1] = MChunkTree /\ items[m].k[3] = MFirst /\ items[m].d.chunk}}

Root == <<MFs, MFirst>>

(* What the metadata shows *)
View(items) == [ino |-> Inodes(items), dir |-> EntriesOf(items, TDirItem),
                xat |-> EntriesOf(items, TXAttr), ext |-> ExtentsOf(items),
                sub |-> Subvolumes(items), chunks |-> ChunksOf(items),
                faults |-> {}, hit |-> {}]    \* see Files, Recover

Dir(v, o) == At(v.dir, o, {})

\* Entries that lead to a directory
IsSubdir(e) == e.type = FtDir

RECURSIVE ReachFrom(_, _)
ReachFrom(v, set) ==
    LET more == UNION {{e.target : e \in {x \in Dir(v, o) : IsSubdir(x)}} : o \in set} \ set
    IN  IF more = {} THEN set ELSE ReachFrom(v, set \cup more)
Reachable(v, o) == ReachFrom(v, {o})

-----------------------------------------------------------------------------
(* Looking up a path: the set of entries it may mean, Miss if there is none.  *)
(* Names are unique in a directory unless the metadata is damaged.            *)
RECURSIVE LookupFrom(_, _, _)
LookupFrom(v, o, path) ==
    LET here == {e \in Dir(v, o) : e.name = Head(path)}
    IN  IF Len(path) = 1 THEN here
        ELSE UNION {LookupFrom(v, e.target, Tail(path)) : e \in {x \in here : IsSubdir(x)}}
LookupPath(v, path) == LookupFrom(v, Root, path)
=============================================================================
