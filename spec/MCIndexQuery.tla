---------------------------- MODULE MCIndexQuery ----------------------------
(* Every set of stored versions over a small universe, and every generation:  *)
(* the cursor algorithms of the code give the answers of IndexStore.          *)
EXTENDS Order

CONSTANTS RMax, RLast, R0, R1, R2, R3, R256, MaxLag, Variant, Universe, Queries

MChunkOf(d) == [ok |-> FALSE]
MAddrOf(r) == r
S == INSTANCE IndexStore WITH ChunkOf <- MChunkOf, AddrOf <- MAddrOf
A == INSTANCE IndexAlgo

VARIABLES stored, gen, done

\* Half of the set is chosen in the first step, so that TLC's workers share the
\* evaluation of the invariants.
Half == {v \in Universe : v[5] <= 3}
Init == stored \in SUBSET Half /\ gen \in 1..RMax /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ \E more \in SUBSET (Universe \ Half) : stored' = stored \cup more
        /\ gen' = gen
Spec == Init /\ [][Next]_<<stored, gen, done>>

\* every version carries its own key as data
Items == [v \in stored |-> v]
Recs == Sorted5(stored \cup {A!HeaderKey})

Owners == {v[1] : v \in Universe} \cup {RMax}
Keys == {<<v[2], v[3], v[4]>> : v \in Universe} \cup Queries \cup {<<255, RLast, RMax>>}

FindAgrees ==
    done =>
    \A o \in Owners : \A k \in Keys :
        LET n == A!Find(Recs, o, k, gen)
        IN  (IF n = 0 THEN <<>> ELSE <<Recs[n]>>) =
            (IF o = RMax THEN <<>> ELSE S!Lookup(Items, o, k, gen))

RangeAgrees ==
    done =>
    \A o \in Owners \ {RMax} : \A first, last \in Keys :
        LET l == S!Listing(Items, o, first, last, gen)
        IN  A!KeyRange(Recs, o, first, last, gen) = [n \in 1..Len(l) |-> l[n][6]]

FullAgrees ==
    done =>
    LET l == S!FullListing(Items)
    IN  A!Full(Recs) = [n \in 1..Len(l) |-> l[n][6]]

(* The properties themselves, on the abstract answers *)
FindIsLocal ==          \* C04: nothing but the versions of the key matters
    done =>
    \A o \in Owners \ {RMax} : \A k \in Keys :
        LET own == {v \in stored : v[1] = o /\ <<v[2], v[3], v[4]>> = k}
            res == S!Lookup(Items, o, k, gen)
        IN  /\ res = S!Lookup([v \in own |-> v], o, k, gen)
            /\ (res = <<>>) = (own = {})
            /\ res # <<>> =>
                 /\ res[1] \in own
                 /\ \A v \in own : IF res[1][5] <= gen
                                   THEN v[5] <= gen => v[5] <= res[1][5]
                                   ELSE v[5] >= res[1][5]

ListingIsComplete ==    \* C05
    done =>
    \A o \in Owners \ {RMax} : \A first, last \in Keys :
        LET l == S!Listing(Items, o, first, last, gen)
            key(n) == <<l[n][2], l[n][3], l[n][4]>>
        IN  /\ \A n \in 1..Len(l) - 1 : Less3(key(n), key(n + 1))
            /\ {key(n) : n \in 1..Len(l)} =
                 {k \in {<<v[2], v[3], v[4]>> : v \in {w \in stored : w[1] = o}} :
                     LessEq3(first, k) /\ LessEq3(k, last)}
            /\ \A n \in 1..Len(l) : <<l[n][6]>> = S!Lookup(Items, o, key(n), gen)
=============================================================================
