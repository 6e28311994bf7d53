------------------------------ MODULE MCExtents -----------------------------
(* How the contents of a file are put together from extents that overlap:     *)
(* the sweep of file_extents.go against the definition in Files.tla, for all  *)
(* sets of extents within the constants.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxPos, MaxLen, MaxGen,
          Mode     \* "sweep", or wrong: "keyorder", "noend", "oldest"

VARIABLES exts,    \* per start either 0 or <<length, generation>>
          stored, active, pos, out, done
vars == <<exts, stored, active, pos, out, done>>

Pos == 0..MaxPos
Ext(p) == [pos |-> p, end |-> p + exts[p][1], gen |-> exts[p][2]]
All == {Ext(p) : p \in {q \in Pos : exts[q] # <<>>}}

RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>>
              ELSE LET x == CHOOSE x \in S : \A y \in S : x.pos <= y.pos
                   IN  <<x>> \o InOrder(S \ {x})

Init == /\ exts \in [Pos -> {<<>>} \cup ((1..MaxLen) \X (1..MaxGen))]
        /\ stored = InOrder(All) /\ active = {} /\ pos = 0 /\ out = <<>> /\ done = FALSE

Newer(x, y) == IF Mode = "oldest" THEN x.gen < y.gen \/ (x.gen = y.gen /\ x.pos > y.pos)
               ELSE x.gen > y.gen \/ (x.gen = y.gen /\ x.pos > y.pos)
Top == CHOOSE x \in active : \A y \in active : x = y \/ Newer(x, y)

Sweep ==
    /\ ~done /\ UNCHANGED exts
    /\ IF stored = <<>> /\ active = {} THEN done' = TRUE /\ UNCHANGED <<stored, active, pos, out>>
       ELSE IF active = {} /\ Head(stored).pos # pos /\ Head(stored).pos > pos
       THEN pos' = Head(stored).pos /\ UNCHANGED <<stored, active, out, done>>
       ELSE IF stored # <<>> /\ Head(stored).pos <= pos
       THEN /\ active' = active \cup {Head(stored)} /\ stored' = Tail(stored)
            /\ UNCHANGED <<pos, out, done>>
       ELSE IF Top.end <= pos
       THEN active' = active \ {Top} /\ UNCHANGED <<stored, pos, out, done>>
       ELSE LET end == IF Mode # "noend" /\ stored # <<>> /\ Head(stored).pos < Top.end
                       THEN Head(stored).pos ELSE Top.end
            IN  /\ out' = Append(out, [from |-> pos, to |-> end, x |-> Top])
                /\ pos' = end /\ UNCHANGED <<stored, active, done>>

\* As found: extents were written in the order of their keys
KeyOrder ==
    /\ ~done /\ UNCHANGED <<exts, active, pos>>
    /\ IF stored = <<>> THEN done' = TRUE /\ UNCHANGED <<stored, out>>
       ELSE /\ out' = Append(out, [from |-> Head(stored).pos, to |-> Head(stored).end, x |-> Head(stored)])
            /\ stored' = Tail(stored) /\ UNCHANGED done

Next == IF Mode = "keyorder" THEN KeyOrder ELSE Sweep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Covering(p) == {x \in All : x.pos <= p /\ p < x.end}
Designating(p) == {x \in Covering(p) : \A y \in Covering(p) : y.gen <= x.gen}
Written(p) == {n \in 1..Len(out) : out[n].from <= p /\ p < out[n].to}

Right == done => \A p \in 0..(MaxPos + MaxLen) :
    IF Covering(p) = {} THEN Written(p) = {}
    ELSE /\ Written(p) # {}
         /\ LET last == CHOOSE n \in Written(p) : \A m \in Written(p) : m <= n
            IN  out[last].x \in Designating(p)
Pieces == Mode = "sweep" => \A n \in 1..Len(out) : out[n].from < out[n].to
                                 /\ (n > 1 => out[n - 1].to <= out[n].from)
Ends == <>done
=============================================================================
