------------------------------ MODULE MCSample ------------------------------
(* The sample selection of identify for all small devices, block sizes and    *)
(* requested numbers, with every possible outcome of the random draws (C18).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxDev,   \* sizes of devices
          Mode      \* "ok", or wrong: "noroom", "noclamp", "edge", "unaligned"
MLess(a, b) == a < b
MAdd(a, i) == a + i
MNum(n) == n
INSTANCE Identify WITH Less <- MLess, Add <- MAdd, Num <- MNum

Copies == {2, 7}     \* places of the superblock copies
K == 2               \* blocks looked at around each

VARIABLES dev, bs, n, phase, limit, set
vars == <<dev, bs, n, phase, limit, set>>

A(o) == [q |-> o \div bs, r |-> o % bs]
Fit(o) == IF Mode = "noroom" THEN TRUE ELSE o + bs <= dev
Blocks == IF Mode = "edge" THEN (dev + bs - 1) \div bs ELSE dev \div bs

Init == /\ dev \in 1..MaxDev /\ bs \in 1..3 /\ n \in 0..(MaxDev + 1)
        /\ phase = "near" /\ limit = n /\ set = {}
NearBlocks ==
    /\ phase = "near" /\ phase' = "draw"
    /\ set' = {o \in {s + i * bs : s \in Copies, i \in 0..(K - 1)} : Fit(o)}
    /\ limit' = IF n > Blocks /\ Mode # "noclamp" THEN Blocks ELSE n
    /\ UNCHANGED <<dev, bs, n>>
Draw(k) ==
    /\ phase = "draw" /\ Cardinality(set) < limit /\ k < Blocks
    /\ set' = set \cup {IF Mode = "unaligned" THEN k * bs + (IF k + 1 < Blocks THEN 1 ELSE 0) ELSE k * bs}
    /\ UNCHANGED <<dev, bs, n, phase, limit>>
Finish ==
    /\ phase = "draw" /\ Cardinality(set) >= limit /\ phase' = "done"
    /\ UNCHANGED <<dev, bs, n, limit, set>>
Next == NearBlocks \/ Finish \/ \E k \in 0..(MaxDev - 1) : Draw(k)
\* Every number is drawn again and again
Spec == Init /\ [][Next]_vars /\ WF_vars(NearBlocks) /\ WF_vars(Finish)
        /\ \A k \in 0..(MaxDev - 1) : WF_vars(Draw(k))

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Sorted(S \ {m})
Result == LET s == Sorted(set) IN [k \in 1..Len(s) |-> A(s[k])]
Correct == phase = "done" => SampleOk(A(dev), {A(s) : s \in Copies}, K, n, Result)
Terminates == <>(phase = "done")
=============================================================================
