------------------------------ MODULE MCRecover -----------------------------
(* The traversal of recover.go on all small directory graphs and prior        *)
(* contents of the destination: what it leaves behind has to satisfy          *)
(* Recover!RecoverOk, it must not follow links, and it must end.              *)
EXTENDS Recover

CONSTANTS Mode,        \* "ok", or wrong: "novisited", "follow", "visitfirst", "abort", "subvols"
          Options      \* what a name may refer to

MM0 == 0  MMFirst == 0  MMLast == 9  MMFs == 1  MMRootTree == 0  MMChunkTree == 0
MChars(v, n) == <<n>>
MSubName(v, i) == 9

R == <<1, 0>>   D == <<1, 2>>   S == <<2, 0>>
Dirs == {R, D, S}
File(o) == <<o[1], 5>>   Link(o) == <<o[1], 6>>
Places == {<<R, 1>>, <<R, 2>>, <<D, 1>>, <<D, 2>>, <<S, 1>>}

Inl == [type |-> 0, ram |-> 1, data |-> <<65>>, enc |-> 0, hole |-> TRUE, addr |-> 0, num |-> 0]
EntryOf(o, n, w) ==
    CASE w = "R" -> [name |-> n, type |-> FtDir, target |-> R, sub |-> FALSE]
      [] w = "D" -> [name |-> n, type |-> FtDir, target |-> D, sub |-> FALSE]
      [] w = "S" -> [name |-> n, type |-> FtDir, target |-> S, sub |-> TRUE]
      [] w = "file" -> [name |-> n, type |-> FtFile, target |-> File(o), sub |-> FALSE]
      [] w = "link" -> [name |-> n, type |-> FtLink, target |-> Link(o), sub |-> FALSE]

VARIABLES g, prior, clobber, tree, stack, visited, subs, touched, done
vars == <<g, prior, clobber, tree, stack, visited, subs, touched, done>>

V == [ino |-> [o \in {File(R), File(S)} |-> [fsize |-> 0]],
      dir |-> [o \in Dirs |-> {EntryOf(o, x[2], g[x]) : x \in {y \in Places : y[1] = o /\ g[y] # "none"}}],
      ext |-> [o \in {Link(R), Link(S)} |-> {[pos |-> 0, gen |-> 1, d |-> Inl]}],
      sub |-> {2}, chunks |-> {}, faults |-> {}, hit |-> {}]

Node(kind, id, target) == [kind |-> kind, id |-> id, size |-> 0, at |-> <<>>, bytes |-> <<>>,
                           target |-> target, ro |-> FALSE]
DirNode == Node("dir", 0, <<>>)
Top == <<>> :> DirNode
Priors == {Top} \cup {Top @@ (<<n>> :> Node(k, 7, IF k = "link" THEN <<66>> ELSE <<>>)) :
                         n \in {1, 9}, k \in {"dir", "file", "link"}}

Frame(o, p) == [o |-> o, p |-> p, todo |-> {x[2] : x \in {y \in Places : y[1] = o /\ g[y] # "none"}}]

Init == /\ g \in [Places -> Options] /\ prior \in Priors /\ clobber \in BOOLEAN
        /\ tree = prior /\ stack = <<Frame(R, <<>>)>> /\ visited = {R} /\ subs = {2}
        /\ touched = FALSE /\ done = FALSE

Pop(s) == SubSeq(s, 1, Len(s) - 1)
Last1(s) == s[Len(s)]
There(p) == p \in DOMAIN tree
Replace(p, node) == [q \in DOMAIN tree \cup {p} |-> IF q = p THEN node ELSE tree[q]]

\* Starting on directory o at path p, with the rest of the stack
Enter(o, p, rest) ==
    IF o \in visited /\ Mode # "novisited" THEN stack' = rest /\ UNCHANGED <<tree, visited, touched>>
    ELSE IF There(p) /\ tree[p].kind # "dir"
    THEN /\ stack' = IF Mode = "abort" THEN <<>> ELSE rest
         /\ touched' = (touched \/ (Mode = "follow" /\ tree[p].kind = "link"))
         /\ visited' = IF Mode = "visitfirst" THEN visited \cup {o} ELSE visited
         /\ UNCHANGED tree
    ELSE /\ tree' = IF There(p) THEN tree ELSE Replace(p, DirNode)
         /\ visited' = visited \cup {o}
         /\ stack' = Append(rest, Frame(o, p)) /\ UNCHANGED touched

Restore(p, node, rest) ==
    /\ stack' = rest /\ UNCHANGED visited
    /\ IF There(p) /\ (~clobber \/ tree[p].kind = "dir") THEN UNCHANGED <<tree, touched>>
       ELSE IF There(p) /\ Mode = "follow" /\ tree[p].kind = "link"
       THEN touched' = TRUE /\ UNCHANGED tree
       ELSE tree' = Replace(p, node) /\ UNCHANGED touched

Step ==
    /\ stack # <<>> /\ UNCHANGED <<g, prior, clobber, subs, done>>
    /\ LET f == Last1(stack)
       IN  IF f.todo = {} THEN stack' = Pop(stack) /\ UNCHANGED <<tree, visited, touched>>
           ELSE LET n == MinOf(f.todo)
                    w == g[<<f.o, n>>]
                    q == Append(f.p, n)
                    rest == Append(Pop(stack), [f EXCEPT !.todo = @ \ {n}])
                IN  CASE w = "file" -> Restore(q, Node("file", 1, <<>>), rest)
                      [] w = "link" -> Restore(q, Node("link", 0, <<65>>), rest)
                      [] OTHER -> Enter(EntryOf(f.o, n, w).target, q, rest)

Subvolume ==
    /\ stack = <<>> /\ subs # {} /\ UNCHANGED <<g, prior, clobber, done>>
    /\ subs' = {}
    /\ IF Mode = "subvols" THEN UNCHANGED <<stack, tree, visited, touched>> ELSE Enter(S, <<9>>, <<>>)
End == /\ stack = <<>> /\ subs = {} /\ ~done /\ done' = TRUE
       /\ UNCHANGED <<g, prior, clobber, tree, stack, visited, subs, touched>>

Next == Step \/ Subvolume \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Contained == ~touched
Bounded == Len(stack) <= 5
Right == done => RecoverOk(V, 0, prior, tree, clobber, {})
Kept == \A p \in DOMAIN prior : p \in DOMAIN tree /\ (~clobber => Same(prior[p], tree[p]))
Ends == <>done
=============================================================================
