-------------------------------- MODULE View --------------------------------
(* The mounted view: what it answers to requests (C15, C16).  The view has no *)
(* state of its own, so that every answer depends on the metadata, the device *)
(* and the object that is asked for only; except for inode numbers, which are *)
(* assigned in any way that tells objects apart.                              *)
EXTENDS Files

CONSTANT ImpossibleName(_, _)   \* names that cannot be a path component

ENOENT == 2   ENOTDIR == 20   ENODATA == 61

Known(v, o) == o \in DOMAIN v.ino
\* The inode tells what an object is, whatever the entry that leads to it says
NotDir(v, o) == Known(v, o) /\ v.ino[o].mode \div 4096 # 4

AttrOk(v, o, a) ==
    LET d == v.ino[o]
    IN  /\ a.mode = d.fullmode /\ a.size = d.size /\ a.uid = d.uid /\ a.gid = d.gid
        /\ a.nlink = d.nlink \/ (d.nlink = "0" /\ a.nlink = "1")
        /\ a.times = d.times

\* What a name in a directory may refer to
Named(v, o, n) == {e.target : e \in {x \in Dir(v, o) : x.name = n}}

LookupOk(v, o, n, obs) ==
    LET c == Named(v, o, n)
    IN  \/ ImpossibleName(v, n)
        \/ NotDir(v, o) /\ obs.r = "err" /\ obs.e = ENOTDIR
        \/ c = {} /\ obs.r = "err" /\ obs.e = ENOENT
        \/ \E t \in c : Known(v, t) => (obs.r = "ok" /\ AttrOk(v, t, obs.a))

GetAttrOk(v, o, obs) == Known(v, o) => (obs.r = "ok" /\ AttrOk(v, o, obs.a))

\* Directory entry types of readdir: S_IFMT >> 12
ReaddirType(t) == CASE t = FtFile -> 8 [] t = FtDir -> 4 [] t = FtChr -> 2 [] t = FtBlk -> 6
                    [] t = FtFifo -> 1 [] t = FtSock -> 12 [] t = FtLink -> 10 [] OTHER -> 0

ReaddirOk(v, o, obs) ==
    LET want(n) == {e \in Dir(v, o) : e.name = n}
        possible == {e \in Dir(v, o) : ~ImpossibleName(v, e.name)}
        got == obs.list
    IN  \/ NotDir(v, o) /\ obs.r = "err" /\ obs.e = ENOTDIR
        \/ /\ obs.r = "ok"
           /\ \A e \in possible : \E k \in 1..Len(got) : got[k].name = e.name
           /\ \A k \in 1..Len(got) :
                /\ \E e \in want(got[k].name) :
                      /\ ReaddirType(e.type) \in {0, got[k].type}
                      /\ (got[k].plus /\ Known(v, e.target)) => AttrOk(v, e.target, got[k].a)
                /\ ~ImpossibleName(v, got[k].name)
                /\ Cardinality({j \in 1..Len(got) : got[j].name = got[k].name})
                     <= Cardinality(want(got[k].name))

(* The target of a symlink is the inline data of its newest extent. Where     *)
(* that is not inline, the answer may be an error, but never something else.  *)
ReadlinkOk(v, img, o, obs) ==
    LET at == {x \in Extents(v, o) : x.pos = 0}
        text(x) == IF Inline(x.d) THEN x.d.data ELSE [n \in 1..x.d.num |-> ByteOf(v, img, x, n - 1)]
    IN  /\ \A x \in at : (Inline(x.d) /\ x.d.enc = 0 /\ x.d.ram > 0)
                              => (obs.r = "ok" /\ obs.target = x.d.data)
        /\ obs.r = "ok" =>
              \/ at = {} /\ obs.target = <<>>
              \/ Encoded(v, o)
              \/ \E x \in at : ExtLen(x.d) < 65536 /\ obs.target = text(x)

XAttrs(v, o) == At(v.xat, o, {})
GetXAttrOk(v, o, n, obs) ==
    LET c == {e.val : e \in {x \in XAttrs(v, o) : x.name = n}}
    IN  IF c = {} THEN obs.r = "err" /\ obs.e = ENODATA ELSE obs.r = "ok" /\ obs.val \in c
ListXAttrOk(v, o, obs) ==
    /\ obs.r = "ok"
    /\ {obs.list[k] : k \in 1..Len(obs.list)} = {e.name : e \in XAttrs(v, o)}
    /\ \A n \in {e.name : e \in XAttrs(v, o)} :
          Cardinality({k \in 1..Len(obs.list) : obs.list[k] = n}) <= Cardinality({e \in XAttrs(v, o) : e.name = n})

-----------------------------------------------------------------------------
(* The file `metadata' next to the tree: the index file, of some size.        *)
MetadataAttrOk(size, obs) == obs.r = "ok" /\ obs.size = ToString(size)
MetadataReadOk(size, off, len, obs) ==
    /\ obs.r = "ok" /\ obs.same
    /\ obs.n = IF off >= size THEN 0 ELSE IF off + len > size THEN size - off ELSE len

-----------------------------------------------------------------------------
(* Reading a window of a file                                                 *)

\* Positions in lo..hi-1 among which there is an unreadable one if there is any
Turns(v, img, exts, lo, hi) ==
    LET edges == {x.pos : x \in exts} \cup {ExtEnd(x) : x \in exts}
        cs == v.chunks
        log == {k.start : k \in cs} \cup {k.start + k.len : k \in cs}
               \cup {k.start + (img - k.phys) : k \in cs}
        moved == {x.pos + (a - x.d.addr) : x \in {y \in exts : ~Inline(y.d)}, a \in log}
    IN  {lo} \cup {p \in edges \cup moved : lo <= p /\ p < hi}

ReadOk(v, img, o, off, len, obs) ==
    LET size == FileSize(v, o)
        end == IF off + len < size THEN off + len ELSE size
        n == IF end > off THEN end - off ELSE 0
        exts == {x \in Extents(v, o) : x.pos < off + len /\ ExtEnd(x) > off}
        turns == IF n = 0 THEN {} ELSE Turns(v, img, exts, off, end)
        must == \E p \in turns : Bytes(v, img, exts, p) = {Unreadable}
        may == \E p \in turns : Unreadable \in Bytes(v, img, exts, p)
    IN  \/ ~Known(v, o) \/ Encoded(v, o) \/ Absurd(v, o)
        \/ obs.r = "err" /\ may
        \/ /\ obs.r = "ok" /\ ~must /\ obs.n = n
           /\ \A k \in 1..Len(obs.at) :
                 obs.bytes[k] \in Bytes(v, img, exts, obs.at[k])
=============================================================================
