------------------------------ MODULE IndexBulk ------------------------------
(* IndexStore for long runs of inserts: the items are numbered 0, 1, 2, ... in *)
(* insertion order, so that a set of items that is a prefix of the inserts is  *)
(* represented by its size.  total items are visible, of which the first       *)
(* durable are known to be on disk.  The n-th item has the key n modulo        *)
(* period, so that later inserts replace earlier ones.                         *)
EXTENDS Integers, Sequences

CONSTANT MaxLag

Prefix(n, p) == IF n = 0 THEN <<>> ELSE <<<<IF n > p THEN n - p ELSE 0, n - 1>>>>

InitState(p) == [total |-> 0, durable |-> 0, period |-> p]

Plain(r) == [r |-> r, runs |-> <<>>, bad |-> 0]
Runs(n, p) == [r |-> "ok", runs |-> Prefix(n, p), bad |-> 0]

Out(res, st) == {[res |-> res, st |-> st]}

Settled(st) == [st EXCEPT !.durable = st.total]

OpenOutcomes(st) == Out(Plain("ok"), st)
BulkOutcomes(st, n) == Out(Plain("ok"), [st EXCEPT !.total = @ + n])
CommitOutcomes(st) == Out(Plain("ok"), Settled(st))
CloseOutcomes(st) == Out(Plain("ok"), Settled(st))
QueryOutcomes(st) == Out(Runs(st.total, st.period), st)
\* The set of possible outcomes of the death of the process, as a predicate
CrashAllows(st, res) ==
    /\ res.r = "ok" /\ res.bad = 0
    /\ \/ res.runs = <<>> /\ st.durable = 0 /\ st.total <= MaxLag
       \/ /\ Len(res.runs) = 1
          /\ LET n == res.runs[1][2] + 1
             IN  /\ res.runs = Prefix(n, st.period)
                 /\ st.durable <= n /\ n <= st.total /\ st.total - n <= MaxLag
CrashState(st, res) ==
    LET n == IF res.runs = <<>> THEN 0 ELSE res.runs[1][2] + 1
    IN  [st EXCEPT !.total = n, !.durable = n]
=============================================================================
