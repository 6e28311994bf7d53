--------------------------------- MODULE Ls ---------------------------------
(* The ls command: the lines it prints for a directory, and which directories *)
(* a recursive listing consists of.                                           *)
EXTENDS Meta

TypeChar(t) == CASE t = FtFile -> "-" [] t = FtBlk -> "b" [] t = FtChr -> "c" [] t = FtDir -> "d"
                 [] t = FtLink -> "l" [] t = FtFifo -> "p" [] t = FtSock -> "s" [] OTHER -> "?"

Bit(mode, n) == (mode \div (2 ^ n)) % 2 = 1
Perms(mode) == [n \in 1..9 |-> IF ~Bit(mode, 9 - n) THEN "-"
                               ELSE <<"r", "w", "x">>[((n - 1) % 3) + 1]]

Unknown == [perms |-> [n \in 1..9 |-> "?"], nlink |-> "?", uid |-> "?", gid |-> "?", size |-> "?", time |-> "?"]
Attrs(v, o) ==
    IF o \notin DOMAIN v.ino THEN Unknown
    ELSE LET d == v.ino[o]
         IN  [perms |-> Perms(d.mode), nlink |-> d.nlink, uid |-> d.uid, gid |-> d.gid,
              size |-> d.size, time |-> d.time]

\* With --inode, numbered is TRUE and the line starts with the object id of the entry
Line(v, e, numbered) == [type |-> TypeChar(e.type), name |-> e.name, inode |-> IF numbered THEN e.loc ELSE 0]
                        @@ Attrs(v, e.target)
Listing(v, o, numbered) == {Line(v, e, numbered) : e \in Dir(v, o)}

Count(seq, x) == Cardinality({n \in 1..Len(seq) : seq[n] = x})
SeqRange(seq) == {seq[n] : n \in 1..Len(seq)}

\* Printed lines are exactly those of a sequence of sets of lines
SameLines(lines, sets) ==
    /\ \A l \in SeqRange(lines) \cup UNION {sets[n] : n \in 1..Len(sets)} :
          Count(lines, l) = Cardinality({n \in 1..Len(sets) : l \in sets[n]})

(* One argument: <<>> is the root directory *)
ArgDirs(v, path) == IF path = <<>> THEN {Root}
                    ELSE {e.target : e \in {x \in LookupPath(v, path) : IsSubdir(x)}}
ArgFiles(v, path) == IF path = <<>> THEN {} ELSE {x \in LookupPath(v, path) : ~IsSubdir(x)}
ArgMissing(v, path) == path # <<>> /\ LookupPath(v, path) = {}

(* The sections of a recursive listing, other than the first: [head, lines]   *)
SectionsOk(v, start, numbered, sections) ==
    LET dirs == Reachable(v, start)
        others == dirs \ {start}
        names(o) == UNION {{e.name : e \in {x \in Dir(v, d) : IsSubdir(x) /\ x.target = o}} : d \in dirs}
        isOf(s, o) == SeqRange(s.lines) = Listing(v, o, numbered) /\ Len(s.lines) = Cardinality(Listing(v, o, numbered))
                      /\ s.head \in names(o)
    IN  /\ Len(sections) = Cardinality(others)
        /\ \A n \in 1..Len(sections) : \E o \in others : isOf(sections[n], o)
        /\ \A o \in others :       \* directories that look alike have as many sections
              LET alike == {p \in others : Listing(v, p, numbered) = Listing(v, o, numbered)}
              IN  Cardinality({n \in 1..Len(sections) : SeqRange(sections[n].lines) = Listing(v, o, numbered)})
                  = Cardinality(alike)

(* The order: other entries before directories, both by name, and the sections *)
(* of a recursive listing as a depth first walk in that order meets them.      *)
(* Names are numbered in the order of their bytes.  Damaged directories with   *)
(* several entries of one name have no fixed order.                            *)
Before(a, b) == IF IsSubdir(a) # IsSubdir(b) THEN IsSubdir(b) ELSE a.name < b.name
DirSeq(v, o) == SetToSortSeq(Dir(v, o), Before)
Lines(v, o, numbered) == LET s == DirSeq(v, o) IN [n \in 1..Len(s) |-> Line(v, s[n], numbered)]
Distinct(v, o) == Cardinality({<<e.name, IsSubdir(e)>> : e \in Dir(v, o)}) = Cardinality(Dir(v, o))

RECURSIVE Walk(_, _, _, _)
Walk(v, todo, visited, numbered) ==
    IF todo = <<>> THEN <<>>
    ELSE LET e == Head(todo)  o == e.target IN
         IF o \in visited THEN Walk(v, Tail(todo), visited, numbered)
         ELSE <<[head |-> e.name, lines |-> Lines(v, o, numbered)]>>
              \o Walk(v, SelectSeq(DirSeq(v, o), IsSubdir) \o Tail(todo), visited \cup {o}, numbered)

Fixed(v, op) ==
    \A n \in 1..Len(op.args) :
        LET dirs == ArgDirs(v, op.args[n])
        IN  /\ Cardinality(dirs) + Cardinality(ArgFiles(v, op.args[n])) <= 1
            /\ \A o \in dirs : \A p \in (IF op.recursive THEN Reachable(v, o) ELSE {o}) : Distinct(v, p)

(* Output whose order is fixed *)
InOrderOk(v, op) ==
    LET args == op.args
        dirs(n) == ArgDirs(v, args[n])
        files(n) == ArgFiles(v, args[n])
        the(S) == CHOOSE x \in S : TRUE
        fileLines == [n \in 1..Len(args) |-> IF files(n) = {} THEN <<>> ELSE <<Line(v, the(files(n)), op.numbered)>>]
        dirLines == [n \in 1..Len(args) |-> IF dirs(n) = {} THEN <<>> ELSE Lines(v, the(dirs(n)), op.numbered)]
        \* What an argument prints: its own lines, and the sections below it
        printed(n) ==
            IF dirs(n) = {} THEN <<[head |-> 0, lines |-> <<>>]>>
            ELSE <<[head |-> 0, lines |-> dirLines[n]]>>
                 \o IF op.recursive THEN Walk(v, SelectSeq(DirSeq(v, the(dirs(n))), IsSubdir), {the(dirs(n))}, op.numbered) ELSE <<>>
        \* The lines of the next one follow without a heading
        join(blocks, more) == [n \in 1..(Len(blocks) + Len(more) - 1) |->
                                  IF n < Len(blocks) THEN blocks[n]
                                  ELSE IF n > Len(blocks) THEN more[n - Len(blocks) + 1]
                                  ELSE [blocks[n] EXCEPT !.lines = @ \o more[1].lines]]
    IN  op.obs.blocks = FoldLeft(join, <<[head |-> 0, lines |-> FlattenSeq(fileLines)]>>, [n \in 1..Len(args) |-> printed(n)])

(* Any order *)
AnyOrderOk(v, op) ==
    LET args == op.args
        dirs(n) == ArgDirs(v, args[n])
        files(n) == {Line(v, e, op.numbered) : e \in ArgFiles(v, args[n])}
        top(n) == UNION {Listing(v, o, op.numbered) : o \in dirs(n)} \cup files(n)
        obs == op.obs
        below(n) == UNION {Reachable(v, o) : o \in dirs(n)} \ dirs(n)
        shown == SelectSeq([n \in 1..Len(args) |-> n], LAMBDA n : dirs(n) # {})
    IN  IF op.recursive /\ Len(shown) > 1
        THEN \* Sections run into each other: the lines of all of them
             /\ Len(obs.blocks) = 1 + FoldLeft(LAMBDA k, n : k + Cardinality(below(shown[n])), 0, [n \in 1..Len(shown) |-> n])
             /\ SameLines(FlattenSeq([n \in 1..Len(obs.blocks) |-> obs.blocks[n].lines]),
                          [n \in 1..Len(args) |-> top(n)]
                          \o FlattenSeq([n \in 1..Len(args) |->
                                 LET q == SetToSeq(below(n)) IN [k \in 1..Len(q) |-> Listing(v, q[k], op.numbered)]]))
        ELSE
        /\ SameLines(obs.blocks[1].lines, [n \in 1..Len(args) |-> top(n)])
        /\ IF ~op.recursive THEN Len(obs.blocks) = 1
           ELSE IF \A n \in 1..Len(args) : dirs(n) = {} THEN Len(obs.blocks) = 1
           ELSE \* one directory argument
                LET n == CHOOSE n \in 1..Len(args) : dirs(n) # {}
                IN  \E o \in dirs(n) : SectionsOk(v, o, op.numbered, Tail(obs.blocks))

LsOk(v, op) ==
    LET args == op.args
        missing(n) == ArgMissing(v, args[n])
        obs == op.obs
    IN  /\ obs.r = "ok" \/ (obs.r = "err" /\ \E n \in 1..Len(args) : missing(n))
        /\ Len(obs.missing) = Len(args)
        /\ \A n \in 1..Len(args) : obs.missing[n] = missing(n)
        /\ Len(obs.blocks) >= 1
        /\ IF Fixed(v, op) THEN InOrderOk(v, op) ELSE AnyOrderOk(v, op)
=============================================================================
