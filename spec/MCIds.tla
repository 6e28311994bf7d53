-------------------------------- MODULE MCIds -------------------------------
(* Reading and printing of (shortened) ids: all texts over an alphabet (C20). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,        \* bytes of an id
          MaxLen,   \* length of texts
          Mode      \* "ok", or wrong: "case", "long", "short", "ends"
MLess(a, b) == a < b
MAdd(a, i) == a + i
MNum(n) == n
INSTANCE Identify WITH Less <- MLess, Add <- MAdd, Num <- MNum
Alphabet == {48, 57, 97, 102, 65, 71, 103, 45, 32}     \* 09afAGg- and space
Hex == {48, 57, 97, 102, 65}
IdBytes == {16 * Digit(a) + Digit(b) : a, b \in Hex}
IdsOf == [1..N -> IdBytes]

VARIABLES text, rest, out, ok
vars == <<text, rest, out, ok>>

\* The algorithm: takes the dashes out, then converts digit after digit
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET s == Texts(n - 1) IN s \cup {Append(t, c) : <<t, c>> \in {x \in s : Len(x) = n - 1} \X Alphabet}
Start(t) == IF Mode = "ends" THEN (IF Len(t) > 0 /\ t[Len(t)] = Dash THEN SubSeq(t, 1, Len(t) - 1) ELSE t)
            ELSE SelectSeq(t, NoDash)
Init == /\ text \in Texts(MaxLen) /\ rest = Start(text) /\ out = <<>> /\ ok = "reading"
Val(c) == IF Mode = "case" /\ c \in 65..70 THEN -1 ELSE Digit(c)
Next ==
    /\ ok = "reading" /\ UNCHANGED text
    /\ IF Len(rest) = 0 \/ (Mode = "long" /\ Len(out) = N)
       THEN /\ ok' = IF Len(out) = N \/ (Mode = "short" /\ Len(out) < N) THEN "accepted" ELSE "refused"
            /\ UNCHANGED <<rest, out>>
       ELSE IF Len(rest) = 1 \/ Val(rest[1]) = -1 \/ Val(rest[2]) = -1
       THEN ok' = "refused" /\ UNCHANGED <<rest, out>>
       ELSE /\ out' = Append(out, 16 * Val(rest[1]) + Val(rest[2]))
            /\ rest' = SubSeq(rest, 3, Len(rest)) /\ UNCHANGED ok
Spec == Init /\ [][Next]_vars
Accepted == ok = "accepted" => /\ IsId(text, N) /\ Value(text) = out
                               /\ Selects(text, out) /\ Selects(text, Value(text))
                               /\ \A id \in IdsOf : Selects(text, id) => id = out
Refused == ok = "refused" => /\ ~IsId(text, N) /\ \A id \in IdsOf : ~Selects(text, id)
\* Every printed id is one of the texts that select it, wherever the dashes are
ASSUME \A id \in IdsOf : \A d \in SUBSET (1..N) : Selects(Printed(id, d), id) /\ Value(Printed(id, d)) = id
=============================================================================
