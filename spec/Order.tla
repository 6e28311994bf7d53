------------------------------- MODULE Order -------------------------------
(* Lexicographic order of index keys.  A version key of a stored item is the  *)
(* tuple <<owner, type, objectid, offset, generation>>; 64 bit values are     *)
(* represented by their rank among the values of a behaviour, which keeps     *)
(* their order and equality.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Less3(a, b) ==
    \/ a[1] < b[1]
    \/ a[1] = b[1] /\ \/ a[2] < b[2]
                      \/ a[2] = b[2] /\ a[3] < b[3]

LessEq3(a, b) == a = b \/ Less3(a, b)

Less5(a, b) ==
    \/ a[1] < b[1]
    \/ a[1] = b[1] /\ \/ a[2] < b[2]
                      \/ a[2] = b[2] /\ \/ a[3] < b[3]
                                        \/ a[3] = b[3] /\ \/ a[4] < b[4]
                                                          \/ a[4] = b[4] /\ a[5] < b[5]

LessEq5(a, b) == a = b \/ Less5(a, b)

Sorted3(S) == SetToSortSeq(S, Less3)
Sorted5(S) == SetToSortSeq(S, Less5)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
=============================================================================
