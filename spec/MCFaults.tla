------------------------------ MODULE MCFaults -------------------------------
(* What a failing device or a full disk may do to a scan and to the copying   *)
(* of a file (C23).                                                           *)
(*                                                                            *)
(* The scan reads blocks 1..Blocks one by one, collects one item of each and  *)
(* commits whenever TxMax have been collected; reads and commits may fail.    *)
(* The copy reads a file of Len positions, whose extents are Extents, in      *)
(* requests of at most Request positions that fail if they touch one of the   *)
(* bad positions; a write may fail as well.                                   *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Blocks, TxMax, Len0, Request, Variant
Positions == 1..Len0

VARIABLES what,                                \* "scan" or "copy"
          at, pending, stored, tries, exit, failed,      \* the scan
          exts, bad, ext, from, out, said, done          \* the copy
scanvars == <<at, pending, stored, tries, exit, failed>>
copyvars == <<exts, bad, ext, from, out, said, done>>
vars == <<what, scanvars, copyvars>>

Init == /\ what \in {"scan", "copy"}
        /\ at = 1 /\ pending = 0 /\ stored = 0 /\ tries = 0 /\ exit = "running" /\ failed = FALSE
        \* Extents: boundaries of the file
        /\ IF what = "copy" THEN exts \in SUBSET Positions /\ bad \in SUBSET Positions ELSE exts = {} /\ bad = {}
        /\ ext = 1 /\ from = 1 /\ out = [p \in Positions |-> <<"none">>] /\ said = FALSE /\ done = FALSE

-----------------------------------------------------------------------------
Commit(next) == \/ /\ stored' = stored + pending /\ pending' = 0 /\ exit' = next /\ UNCHANGED failed
                \/ /\ exit' = "err" /\ failed' = TRUE /\ UNCHANGED <<stored, pending>>
                \* the failing write may have been the last one
                \/ /\ exit' = "err" /\ failed' = TRUE /\ stored' = stored + pending /\ pending' = 0

Read == /\ exit = "running" /\ at <= Blocks /\ pending < TxMax
        /\ \/ pending' = pending + 1 /\ at' = at + 1 /\ UNCHANGED <<exit, failed>>
           \/ /\ failed' = TRUE /\ UNCHANGED pending
              /\ IF Variant = "eof" THEN at' = Blocks + 1 /\ UNCHANGED exit
                 ELSE exit' = "err" /\ UNCHANGED at
        /\ UNCHANGED <<stored, tries>>
Full == exit = "running" /\ pending = TxMax /\ Commit("running") /\ UNCHANGED <<at, tries>>
End == exit = "running" /\ at > Blocks /\ Commit("ok") /\ UNCHANGED <<at, tries>>
\* The scan is run again. What it finds is there already.
Again == /\ exit = "err" /\ tries < 2 /\ tries' = tries + 1
         /\ at' = stored + 1 /\ pending' = 0 /\ exit' = "running" /\ failed' = FALSE /\ UNCHANGED stored

-----------------------------------------------------------------------------
\* First position after the extent that starts at e
After(e) == LET s == {p \in exts : p > e} IN IF s = {} THEN Len0 + 1 ELSE CHOOSE p \in s : \A q \in s : p <= q
Source(p) == <<"byte", p>>

Copy == /\ ~done /\ from < After(ext)
        /\ LET n == IF After(ext) - from < Request THEN After(ext) - from ELSE Request
               req == from..(from + n - 1)
           IN  IF req \cap bad # {}
               THEN /\ said' = (IF Variant = "silent" THEN said ELSE TRUE)
                    /\ from' = (IF Variant = "skip" THEN from + n ELSE After(ext))
                    /\ UNCHANGED <<out, done>>
               ELSE \/ /\ out' = [p \in Positions |->
                                    LET d == IF Variant = "skip" /\ bad # {} THEN p + 1 ELSE p
                                    IN  IF d \in req THEN Source(d) ELSE out[p]]
                       /\ from' = from + n /\ UNCHANGED <<said, done>>
                    \* a full disk ends this extent
                    \/ said' = TRUE /\ from' = After(ext) /\ UNCHANGED <<out, done>>
        /\ UNCHANGED <<exts, bad, ext>>
Next1 == /\ ~done /\ from >= After(ext)
         /\ IF After(ext) > Len0 THEN done' = TRUE /\ UNCHANGED <<ext, from>>
            ELSE ext' = After(ext) /\ from' = After(ext) /\ UNCHANGED done
         /\ UNCHANGED <<exts, bad, out, said>>

Next == \/ what = "scan" /\ (Read \/ Full \/ End \/ Again) /\ UNCHANGED <<what, copyvars>>
        \/ what = "copy" /\ (Copy \/ Next1) /\ UNCHANGED <<what, scanvars>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* A scan that says it went well has everything, and nothing failed           *)
HonestScan == exit = "ok" => stored = Blocks /\ ~failed
(* The index holds a prefix, and at most one transaction is lost              *)
Prefix == stored + pending <= Blocks /\ (exit # "running" => (at - 1) - stored <= TxMax)
Kept == [][stored' >= stored]_vars
(* A copy without a message is complete; otherwise nothing in it is wrong     *)
HonestCopy == done => (said \/ \A p \in Positions : out[p] = Source(p))
RightCopy == \A p \in Positions : out[p] \in {<<"none">>, Source(p)}
(* Something unreadable does not go unmentioned                               *)
Spared == (done /\ ~said) => bad = {}
Ends == <>(exit \in {"ok", "err"} \/ done)
=============================================================================
