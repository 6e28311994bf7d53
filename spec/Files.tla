------------------------------- MODULE Files --------------------------------
(* What the bytes of a file are (C10, C16).                                   *)
(*                                                                            *)
(* Every position belongs to the newest extent that covers it.  Positions of  *)
(* a file and logical addresses are relative to a base chosen by the scenario *)
(* (all that lies below is negative).  The device holds the byte DevByte(p)   *)
(* at position p, up to its size.                                             *)
EXTENDS Meta

DevByte(p) == IF (p \div 512) % 9 = 4 THEN 0 ELSE 1 + ((((p % 65521) * 167) + ((p \div 65521) * 29)) % 255)

Inline(d) == d.type = 0
ExtLen(d) == IF Inline(d) THEN d.ram ELSE d.num
ExtEnd(x) == x.pos + ExtLen(x.d)

Extents(v, o) == At(v.ext, o, {})

Covers(x, p) == x.pos <= p /\ p < ExtEnd(x)
Designating(exts, p) ==
    LET c == {x \in exts : Covers(x, p)}
    IN  {x \in c : \A y \in c : y.gen <= x.gen}

Unreadable == -1

\* The device byte at a logical address, Unreadable if there is none
Logical(v, img, a) ==
    LET c == {k \in v.chunks : k.start <= a /\ a < k.start + k.len}
    IN  IF c = {} THEN Unreadable
        ELSE LET k == CHOOSE k \in c : TRUE
                 p == k.phys + (a - k.start)
             IN  IF p < img THEN DevByte(p) ELSE Unreadable

ByteOf(v, img, x, p) ==
    IF Inline(x.d) THEN x.d.data[p - x.pos + 1]
    ELSE IF x.d.hole THEN 0
    ELSE Logical(v, img, x.d.addr + (p - x.pos))

\* What position p may hold. Of several newest extents any may be the one.
Bytes(v, img, exts, p) ==
    LET d == Designating(exts, p)
    IN  IF d = {} THEN {0} ELSE {ByteOf(v, img, x, p) : x \in d}

FileSize(v, o) ==
    IF o \in DOMAIN v.ino THEN v.ino[o].fsize
    ELSE LET e == {ExtEnd(x) : x \in {y \in Extents(v, o) : ExtLen(y.d) > 0}}
         IN  IF e = {} THEN 0 ELSE MaxOf(e)

Encoded(v, o) == \E x \in Extents(v, o) : x.d.enc # 0
\* Sizes that no file can have here
Absurd(v, o) == FileSize(v, o) >= 536870912

(* Failing reads: v.faults are the parts <<from, to>> of the device that could *)
(* not be read when they were asked for. Whatever an extent that has some of  *)
(* them designates may be missing, then.                                      *)
Touched(v, x) ==
    ~Inline(x.d) /\ ~x.d.hole /\
    \E f \in v.faults : \E k \in v.chunks :
        LET lo == MaxOf({x.d.addr, k.start})
            hi == MinOf({x.d.addr + x.d.num, k.start + k.len})
        IN  lo < hi /\ k.phys + (lo - k.start) < f[2] /\ f[1] < k.phys + (hi - k.start)

(* A recovered file: node.size, and the bytes node.bytes at node.at.          *)
(* reported: recovering it said that something was wrong                      *)
FileOk(v, img, o, node, reported) ==
    \/ Encoded(v, o) \/ Absurd(v, o)
    \/ /\ node.size = FileSize(v, o)
       /\ LET exts == Extents(v, o)
          IN  \A n \in 1..Len(node.at) :
                 LET p == node.at[n]
                     b == Bytes(v, img, exts, p)
                 IN  p < node.size =>
                     /\ \/ node.bytes[n] \in b \/ (Unreadable \in b /\ node.bytes[n] = 0)
                        \/ /\ reported /\ node.bytes[n] = 0 /\ v.faults # {}
                           /\ \E x \in Designating(exts, p) : Touched(v, x)
                     /\ b = {Unreadable} => reported

(* What may be left of a file when writing it failed: nothing that is wrong   *)
FilePartOk(v, img, o, node) ==
    \/ Encoded(v, o) \/ Absurd(v, o)
    \/ LET exts == Extents(v, o)
       IN  \A n \in 1..Len(node.at) :
              node.at[n] < node.size => node.bytes[n] \in Bytes(v, img, exts, node.at[n]) \cup {0}

(* The targets that a symlink may have: what its extent at the start of the   *)
(* file designates. None if that is not a possible target.                    *)
LinkTargets(v, img, o) ==
    LET ts == {x \in Extents(v, o) : x.pos = 0}
        text(x) == IF Inline(x.d) THEN x.d.data
                   ELSE [n \in 1..x.d.num |-> ByteOf(v, img, x, n - 1)]
        ok(t) == Len(t) \in 1..4095 /\ \A n \in 1..Len(t) : t[n] > 0
    IN  {t \in {text(x) : x \in {y \in ts : ExtLen(y.d) <= 4096}} : ok(t)}
LinkEncoded(v, o) == Encoded(v, o)
=============================================================================
