------------------------------- MODULE MCMount ------------------------------
(* Requests on the mounted view that are in flight at the same time: what the *)
(* handlers of nodefs.go do with the caches of the nodes and with the table   *)
(* of inode numbers, step by step, under all interleavings (C17, C15).        *)
(*                                                                            *)
(* A node stands for an object that the client knows; two nodes may stand for *)
(* the same object (looked up twice at the same time).  Directory entries are *)
(* cached per node in a map that fills up entry by entry, attributes as soon  *)
(* as they are asked for.                                                     *)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS Mode,        \* "ok", or wrong: "nolock", "held", "order", "numbers"
          Procs, Rounds

Objects == {"top", "x", "y"}
Nodes == {"n1", "n2"}              \* both of the directory, looked up twice
ObjOf(n) == "top"
Entries == {"x", "y"}              \* its entries are named like their objects
Names == Entries \cup {"absent"}

Reqs == [op : {"list", "attr"}, n : Nodes, name : {"-"}] \cup [op : {"lookup"}, n : Nodes, name : Names]

VARIABLES dirs,     \* node -> entries in its map, or Nil
          attrs,    \* node -> cached inode number, 0 if there is none
          nlock,    \* node -> the process that holds its mutex, 0 if none
          ilock,    \* the holder of the mutex of the table
          table,    \* inode numbers: object -> number, 0 if there is none
          pc, req, tmp, left,
          answers   \* set of <<request, answer>>
vars == <<dirs, attrs, nlock, ilock, table, pc, req, tmp, left, answers>>

Nil == {"nil"}

Init == /\ dirs = [n \in Nodes |-> Nil] /\ attrs = [n \in Nodes |-> 0]
        /\ nlock = [n \in Nodes |-> 0] /\ ilock = 0
        /\ table = [o \in Objects |-> 0]
        /\ pc = [p \in Procs |-> "idle"] /\ req = [p \in Procs |-> [op |-> "attr", n |-> "n1", name |-> "-"]]
        /\ tmp = [p \in Procs |-> 0] /\ left = [p \in Procs |-> Rounds] /\ answers = {}

Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
N(p) == req[p].n

\* A request arrives
Start(p) ==
    /\ pc[p] = "idle" /\ left[p] > 0
    /\ \E r \in Reqs : req' = [req EXCEPT ![p] = r]
    /\ left' = [left EXCEPT ![p] = @ - 1]
    /\ Goto(p, IF Mode = "order" /\ req'[p].op = "lookup" THEN "early" ELSE "enter")
    /\ UNCHANGED <<dirs, attrs, nlock, ilock, table, tmp, answers>>

\* Wrong order: a lookup that takes the table's mutex before the node's
Early(p) == /\ pc[p] = "early" /\ ilock = 0 /\ ilock' = p /\ Goto(p, "enter")
            /\ UNCHANGED <<dirs, attrs, nlock, table, req, tmp, left, answers>>

Lock(p) == IF Mode = "nolock" THEN UNCHANGED nlock
           ELSE nlock[N(p)] = 0 /\ nlock' = [nlock EXCEPT ![N(p)] = p]
Unlock(p) == IF Mode = "nolock" THEN UNCHANGED nlock ELSE nlock' = [nlock EXCEPT ![N(p)] = 0]

\* ensureDirItems and GetAttr take the mutex of the node
Enter(p) ==
    /\ pc[p] = "enter" /\ Lock(p)
    /\ Goto(p, IF req[p].op = "attr" THEN IF attrs[N(p)] # 0 THEN "gotattr" ELSE "number"
               ELSE IF dirs[N(p)] = Nil THEN "make" ELSE "made")
    /\ tmp' = [tmp EXCEPT ![p] = IF req[p].op = "attr" THEN attrs[N(p)] ELSE 0]
    /\ UNCHANGED <<dirs, attrs, ilock, table, req, left, answers>>
Make(p) == /\ pc[p] = "make" /\ dirs' = [dirs EXCEPT ![N(p)] = {}] /\ Goto(p, "fill")
           /\ UNCHANGED <<attrs, nlock, ilock, table, req, tmp, left, answers>>
Fill(p) ==
    /\ pc[p] = "fill"
    /\ IF dirs[N(p)] = Entries THEN Goto(p, "made") /\ UNCHANGED dirs
       ELSE \E e \in Entries \ dirs[N(p)] :
              dirs' = [dirs EXCEPT ![N(p)] = @ \cup {e}] /\ UNCHANGED pc
    /\ UNCHANGED <<attrs, nlock, ilock, table, req, tmp, left, answers>>
\* The map is used after the mutex is given back
Made(p) ==
    /\ pc[p] = "made"
    /\ IF Mode = "held" /\ req[p].op = "lookup"      \* wrong: kept while the attributes are asked for
       THEN Goto(p, "again") /\ UNCHANGED nlock
       ELSE Unlock(p) /\ Goto(p, "use")
    /\ UNCHANGED <<dirs, attrs, ilock, table, req, tmp, left, answers>>
Again(p) == /\ pc[p] = "again" /\ nlock[N(p)] = 0 /\ nlock' = [nlock EXCEPT ![N(p)] = p] /\ Goto(p, "made")
            /\ UNCHANGED <<dirs, attrs, ilock, table, req, tmp, left, answers>>

Answer(p, a) == /\ answers' = answers \cup {<<req[p], a>>} /\ Goto(p, "idle")

Use(p) ==
    /\ pc[p] = "use"
    /\ IF req[p].op = "list" THEN Answer(p, [num |-> 0, names |-> dirs[N(p)]])
       ELSE IF req[p].name \in dirs[N(p)] THEN Goto(p, "number") /\ UNCHANGED answers
       ELSE Answer(p, [num |-> 0, names |-> {}])
    /\ ilock' = IF ilock = p /\ pc'[p] = "idle" THEN 0 ELSE ilock
    /\ UNCHANGED <<dirs, attrs, nlock, table, req, tmp, left>>

\* inoMap.get
Object(p) == IF req[p].op = "lookup" THEN req[p].name ELSE ObjOf(N(p))
Number(p) ==
    /\ pc[p] = "number"
    /\ IF Mode = "numbers" \/ ilock = p THEN UNCHANGED ilock ELSE ilock = 0 /\ ilock' = p
    /\ tmp' = [tmp EXCEPT ![p] = IF table[Object(p)] # 0 THEN table[Object(p)]
                                 ELSE 1 + Cardinality({o \in Objects : table[o] # 0})]
    /\ Goto(p, "assign")
    /\ UNCHANGED <<dirs, attrs, nlock, table, req, left, answers>>
Assign(p) ==
    /\ pc[p] = "assign"
    /\ table' = [table EXCEPT ![Object(p)] = tmp[p]]
    /\ ilock' = IF ilock = p THEN 0 ELSE ilock
    /\ Goto(p, IF req[p].op = "attr" THEN "setattr" ELSE "found")
    /\ UNCHANGED <<dirs, attrs, nlock, req, tmp, left, answers>>
SetAttr(p) == /\ pc[p] = "setattr" /\ attrs' = [attrs EXCEPT ![N(p)] = tmp[p]] /\ Goto(p, "gotattr")
              /\ UNCHANGED <<dirs, nlock, ilock, table, req, tmp, left, answers>>
GotAttr(p) == /\ pc[p] = "gotattr" /\ Unlock(p) /\ Answer(p, [num |-> tmp[p], names |-> {}])
              /\ UNCHANGED <<dirs, attrs, ilock, table, req, tmp, left>>
Found(p) == /\ pc[p] = "found" /\ Answer(p, [num |-> tmp[p], names |-> {}])
            /\ UNCHANGED <<dirs, attrs, nlock, ilock, table, req, tmp, left>>

Step(p) == \/ Early(p) \/ Enter(p) \/ Make(p) \/ Fill(p) \/ Made(p) \/ Again(p) \/ Use(p)
           \/ Number(p) \/ Assign(p) \/ SetAttr(p) \/ GotAttr(p) \/ Found(p)
Next == \E p \in Procs : Start(p) \/ Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

-----------------------------------------------------------------------------
\* Every answer is the one to a request that is alone
Alone(r, a) ==
    CASE r.op = "list" -> a.names = Entries
      [] r.op = "attr" -> a.num # 0
      [] r.op = "lookup" -> (a.num # 0) <=> (r.name \in Entries)
AnsweredAlone == \A x \in answers : Alone(x[1], x[2])

\* Numbers tell objects apart, and do not change
Subject(r) == IF r.op = "lookup" THEN r.name ELSE ObjOf(r.n)
Numbered == {x \in answers : x[2].num # 0}
NumbersTell == \A x, y \in Numbered : (x[2].num = y[2].num) <=> (Subject(x[1]) = Subject(y[1]))

\* Somebody can always go on, so that no request waits forever
NoDeadlock == (\E p \in Procs : pc[p] # "idle") => \E p \in Procs : ENABLED Step(p)
Answered == \A p \in Procs : (pc[p] # "idle") ~> (pc[p] = "idle")
=============================================================================
