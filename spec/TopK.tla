-------------------------------- MODULE TopK --------------------------------
(* What a top-k selection is. Scores are order-isomorphic integers.          *)
EXTENDS Integers, Sequences, FiniteSets

Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Members(s) == {s[i] : i \in DOMAIN s}

\* pos: selected positions, 0-based, into score (a sequence)
IsSelection(pos, n, k) ==
    /\ Len(pos) = k
    /\ \A i \in DOMAIN pos : pos[i] \in 0..(n - 1)
    /\ Cardinality(Members(pos)) = Len(pos)

\* no omitted position has a strictly higher score than a selected one
NoBetterOmitted(pos, score) ==
    LET sel == Members(pos)
        low == CHOOSE p \in sel : \A q \in sel : score[p + 1] <= score[q + 1]
    IN  sel = {} \/ \A i \in DOMAIN score : (i - 1) \in sel \/ score[i] <= score[low + 1]

NonIncreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]

ValidTopK(pos, score, k, sorted) ==
    /\ IsSelection(pos, Len(score), k)
    /\ NoBetterOmitted(pos, score)
    /\ sorted => NonIncreasing([i \in DOMAIN pos |-> score[pos[i] + 1]])
=============================================================================
