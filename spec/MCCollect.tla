------------------------------ MODULE MCCollect -----------------------------
(* Counting of filesystem ids: every small collection of blocks, read in      *)
(* every order, gives the same listing (C19).                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Size,     \* number of blocks
          Mode      \* "ok", or wrong: "above", "empty", "drawn", "level", "first"
MLess(a, b) == a < b
MAdd(a, i) == a + i
MNum(n) == n
INSTANCE Identify WITH Less <- MLess, Add <- MAdd, Num <- MNum

Block == [id : {0, -1, 1, 2, 3}, level : {0, 1}, n : {0, 1}, page : {0, 2}, rest : {0, 4095}, times : {1}]
\* Some of them are equal for all purposes
Useful == {b \in Block : /\ b.id \in {0, -1} => (b.level = 0 /\ b.n = 1 /\ b.page = 2 /\ b.rest = 0)
                         /\ b.level = 1 => (b.id = 1 /\ b.n = 1 /\ b.page = 2 /\ b.rest = 0)
                         /\ b.n = 0 => (b.page = 2 /\ b.rest = 0 /\ b.id # 3)
                         /\ b.id = 3 => (b.n = 1 /\ b.page = 0 /\ b.rest = 0)}

VARIABLES blocks,   \* the collection
          left,     \* blocks not read yet
          hist,     \* id -> [count, nonempty, page, rest]
          order     \* ids in the order in which they were first seen
vars == <<blocks, left, hist, order>>

Init == /\ blocks \in [1..Size -> Useful] /\ left = 1..Size /\ hist = <<>> /\ order = <<>>
Read(k) ==
    /\ k \in left /\ left' = left \ {k} /\ UNCHANGED blocks
    /\ LET b == blocks[k]
           h == IF b.id \in DOMAIN hist THEN hist[b.id] ELSE [count |-> 0, ne |-> 0, page |-> 0, rest |-> 0]
           ne == b.n # 0 \/ Mode = "empty"
       IN  IF b.id \in {0, -1} \/ (b.level # 0 /\ Mode # "level") \/ (Mode = "first" /\ b.id \in DOMAIN hist /\ b.n = 0)
           THEN UNCHANGED <<hist, order>>
           ELSE /\ hist' = (b.id :> [count |-> h.count + 1,
                                     ne |-> h.ne + (IF ne THEN 1 ELSE 0),
                                     page |-> h.page + (IF ne THEN b.page ELSE 0),
                                     rest |-> h.rest + (IF ne THEN b.rest ELSE 0)]) @@ hist
                /\ order' = IF b.id \in DOMAIN hist THEN order ELSE Append(order, b.id)
Next == \E k \in 1..Size : Read(k)
Spec == Init /\ [][Next]_vars

Pos(i) == CHOOSE k \in 1..Len(order) : order[k] = i
Before(i, j) ==     \* i is listed before j
    IF hist[i].count # hist[j].count THEN hist[i].count > hist[j].count
    ELSE IF Mode = "drawn" THEN Pos(i) < Pos(j) ELSE i > j
RECURSIVE Listing(_)
Listing(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE m \in S : \A x \in S \ {m} : Before(m, x)
                       h == hist[m]
                   IN  <<[id |-> m, count |-> h.count,
                          pages |-> IF h.ne = 0 THEN 1 ELSE (((h.page + (h.rest \div 4096)) \div h.ne) + 1)]>>
                       \o Listing(S \ {m})
Result(min) == Listing({i \in DOMAIN hist : IF Mode = "above" THEN hist[i].count > min ELSE hist[i].count >= min})
Correct == left = {} => \A min \in 0..Size : /\ EntriesOk(blocks, min, Result(min))
                                             /\ \A p \in TieOrder(Result(min)) : p[1] > p[2]
=============================================================================
