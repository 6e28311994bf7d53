------------------------------ MODULE Recover -------------------------------
(* The recover command: how it may change the destination directory, and what *)
(* has to be there afterwards (C11, C13; C10 through Files).                  *)
(*                                                                            *)
(* The destination is a function from paths (sequences of names, <<>> is the  *)
(* destination itself) to nodes.  Directories of the metadata are restored    *)
(* once, at one of the paths that entries spell; `plan' maps every restored   *)
(* directory object to that path.                                             *)
EXTENDS Files

CONSTANTS Chars(_, _),     \* Chars(v, n): the bytes of the name n
          SubName(_, _)    \* SubName(v, i): name of the directory of an otherwise unreached subvolume i

Dot == 46   Slash == 47   Backslash == 92
NameOk(v, n) ==
    LET c == Chars(v, n)
    IN  c # <<Dot>> /\ c # <<Dot, Dot>> /\ \A k \in 1..Len(c) : c[k] # Slash /\ c[k] # 0
NameDoubtful(v, n) == LET c == Chars(v, n) IN \E k \in 1..Len(c) : c[k] = Backslash

(* Entries that lead to a subvolume are directories whatever type they have.  *)
DirLike(e) == e.type = FtDir \/ e.sub
LeafLike(e) == ~e.sub /\ e.type \in {FtFile, FtLink}
Restorable(v, o) == {e \in Dir(v, o) : NameOk(v, e.name)}

IsDirAt(tree, p) == p \in DOMAIN tree /\ tree[p].kind = "dir"
\* Nothing can be created here
ReadOnlyAt(tree, p) == IsDirAt(tree, p) /\ tree[p].ro
Front1(p) == SubSeq(p, 1, Len(p) - 1)
\* hit: where something failed for reasons of the system
Blocked(hit, after, p) == ~IsDirAt(after, p) /\ (p \in DOMAIN after \/ ReadOnlyAt(after, Front1(p)) \/ p \in hit)

SubObj(i) == <<i, MFirst>>

(* Everything that may be restored as a directory, with the paths where it    *)
(* may be: found by following entries along directories that are there.       *)
RECURSIVE Spell(_, _, _, _)
Spell(v, after, seen, new) ==
    LET below(q) == {<<e.target, Append(q[2], e.name)>> : e \in {x \in Restorable(v, q[1]) : DirLike(x)}}
        there == {q \in UNION {below(p) : p \in new} : IsDirAt(after, q[2])} \ seen
    IN  IF there = {} THEN seen ELSE Spell(v, after, seen \cup there, there)

Spelled(v, after) ==
    LET subs == {<<SubObj(i), <<SubName(v, i)>>>> : i \in v.sub}
        start == {<<Root, <<>>>>} \cup {q \in subs : IsDirAt(after, q[2])}
    IN  Spell(v, after, start, start)

\* All choices of one path per object
RECURSIVE PathChoices(_, _)
PathChoices(objs, paths) ==
    IF objs = {} THEN {<<>>}
    ELSE LET o == CHOOSE o \in objs : TRUE
         IN  {f @@ (o :> q) : f \in PathChoices(objs \ {o}, paths),
                              q \in {x[2] : x \in {y \in paths : y[1] = o}}}

\* The part of a choice that follows entries of restored directories
Children(v, choice, P) ==
    {o \in {e.target : e \in {x \in Restorable(v, P) : DirLike(x) /\ x.target \in DOMAIN choice}} :
        \E e \in Restorable(v, P) : DirLike(e) /\ e.target = o /\ choice[o] = Append(choice[P], e.name)}
RECURSIVE Descendants(_, _, _, _)
Descendants(v, choice, set, new) ==
    LET more == UNION {Children(v, choice, P) : P \in new} \ set
    IN  IF more = {} THEN set ELSE Descendants(v, choice, set \cup more, more)
Plan(v, choice) ==
    LET start == {Root} \cup {o \in DOMAIN choice : o[2] = MFirst /\ o[1] \in v.sub
                                                     /\ choice[o] = <<SubName(v, o[1])>>}
    IN  [o \in Descendants(v, choice, start, start) |-> choice[o]]

-----------------------------------------------------------------------------
(* Is the plan one that follows entries, and complete?                        *)
ReachedBy(v, plan, o) ==
    {P \in DOMAIN plan : \E e \in Restorable(v, P) :
        DirLike(e) /\ e.target = o /\ plan[o] = Append(plan[P], e.name)}
BySubvolume(v, plan, o) == o[2] = MFirst /\ o[1] \in v.sub /\ plan[o] = <<SubName(v, o[1])>>

MainPart(v, plan) == Descendants(v, plan, {Root}, {Root})

PlanOk(v, prior, after, plan) ==
    /\ plan[Root] = <<>>
    /\ \A o \in DOMAIN plan : o = Root \/ ReachedBy(v, plan, o) # {} \/ BySubvolume(v, plan, o)
    \* every directory that an entry of a restored directory leads to
    /\ \A P \in DOMAIN plan : \A e \in {x \in Restorable(v, P) : DirLike(x)} :
          \/ e.target \in DOMAIN plan
          \/ Blocked(v.hit, after, Append(plan[P], e.name))
    \* every known subvolume
    /\ \A i \in v.sub : \/ SubObj(i) \in DOMAIN plan
                        \/ Blocked(v.hit, after, <<SubName(v, i)>>)
    \* but by its own name only if it is not reached otherwise
    /\ LET main == MainPart(v, plan)
       IN  \A o \in DOMAIN plan \ main : \A P \in main :
             \A e \in {x \in Restorable(v, P) : DirLike(x) /\ x.target = o} :
                Blocked(v.hit, after, Append(plan[P], e.name))

-----------------------------------------------------------------------------
(* Claims: what the restored directories want to be at a path                 *)
Claims(v, plan) ==
    UNION {{[p |-> Append(plan[P], e.name), e |-> e] : e \in Restorable(v, P)} : P \in DOMAIN plan}

Matches(v, img, e, node, reported) ==
    \/ e.type = FtFile /\ node.kind = "file" /\ FileOk(v, img, e.target, node, reported)
    \/ e.type = FtLink /\ node.kind = "link"
       /\ (LinkEncoded(v, e.target) \/ node.target \in LinkTargets(v, img, e.target))

\* Said to have failed, and not wrong
Failed(v, img, e, node) == e.type = FtFile /\ node.kind = "file" /\ FilePartOk(v, img, e.target, node)

\* A link whose text is to be read from the device may be missing if that fails
Unsure(v, img, e, p, reported) ==
    \/ p \in v.hit
    \/ p \in reported /\ e.type = FtLink /\ \E x \in Extents(v, e.target) : x.pos = 0 /\ Touched(v, x)
CanBeMade(v, img, e) == e.type = FtFile \/ (e.type = FtLink /\ LinkTargets(v, img, e.target) # {}
                                            /\ ~LinkEncoded(v, e.target))

Same(a, b) == a.kind = b.kind /\ a.id = b.id /\ a.size = b.size /\ a.target = b.target

ContentOk(v, img, prior, after, clobber, reported, plan) ==
    LET claims == Claims(v, plan)
        leaves(p) == {c.e : c \in {x \in claims : x.p = p /\ LeafLike(x.e)}}
        dirs(p) == {c.e : c \in {x \in claims : x.p = p /\ DirLike(x.e)}}
        subs == {<<SubName(v, i)>> : i \in v.sub}
        match(p) == \E e \in leaves(p) : \/ Matches(v, img, e, after[p], p \in reported)
                                         \/ p \in v.hit /\ p \in reported /\ Failed(v, img, e, after[p])
        unsure(p) == \E e \in leaves(p) : Unsure(v, img, e, p, reported)
    IN  \* what was there
        /\ \A p \in DOMAIN prior :
             /\ \/ p \in DOMAIN after
                \/ clobber /\ p \in v.hit \cap reported /\ leaves(p) # {}
             /\ IF p \notin DOMAIN after THEN TRUE ELSE
                IF prior[p].kind = "dir" THEN after[p].kind = "dir"
                ELSE \/ Same(prior[p], after[p])
                        /\ (~clobber \/ ReadOnlyAt(prior, Front1(p))
                                     \/ {e \in leaves(p) : CanBeMade(v, img, e)} = {}
                                     \/ dirs(p) # {} \/ match(p)
                                     \/ (p \in reported /\ unsure(p)))
                     \/ clobber /\ leaves(p) # {} /\ match(p)
                     \/ clobber /\ (dirs(p) # {} \/ p \in subs) /\ after[p].kind = "dir"
        \* what is new
        /\ \A p \in DOMAIN after \ DOMAIN prior :
             \/ p = <<>> /\ after[p].kind = "dir"
             \/ after[p].kind = "dir" /\ (dirs(p) # {} \/ \E o \in DOMAIN plan : plan[o] = p)
             \/ after[p].kind # "dir" /\ match(p)
        \* what has to be there
        /\ \A c \in claims :
             (LeafLike(c.e) /\ CanBeMade(v, img, c.e)
                            /\ ~ReadOnlyAt(after, Front1(c.p)))
             => c.p \in DOMAIN after \/ (c.p \in reported /\ unsure(c.p))
        \* what could not be made is named
        /\ \A p \in v.hit : p \in reported \/ (p \in DOMAIN after /\ (match(p) \/ after[p].kind = "dir"))

RecoverOkFor(v, img, prior, after, clobber, reported) ==
    /\ IsDirAt(after, <<>>)
    /\ LET paths == Spelled(v, after)
           objs == {q[1] : q \in paths}
       IN  \E choice \in PathChoices(objs, paths) : LET plan == Plan(v, choice) IN
              /\ PlanOk(v, prior, after, plan)
              /\ ContentOk(v, img, prior, after, clobber, reported, plan)

\* Names with a backslash may be skipped or not
RecoverOk(v, img, prior, after, clobber, reported) ==
    LET w == [v EXCEPT !.dir = [o \in DOMAIN v.dir |-> {e \in v.dir[o] : ~NameDoubtful(v, e.name)}]]
    IN  \/ RecoverOkFor(w, img, prior, after, clobber, reported)
        \/ w # v /\ RecoverOkFor(v, img, prior, after, clobber, reported)
=============================================================================
