------------------------------- MODULE MCTopK -------------------------------
(* The bounded-heap selection: a min-heap of the k best scores seen so far,  *)
(* scanned once over the scores. Every array over 0..MaxScore of length up   *)
(* to MaxLen and every k is explored; the heap must be the top-k of the      *)
(* prefix at every step. The generated inputs are replayed into the real     *)
(* selection functions (Emit).                                               *)
EXTENDS TopK, TLC, Json
CONSTANTS MaxLen, MaxScore, BadReplace, Emit

VARIABLES a, k, i, heap      \* heap: sequence of <<score, position>>
vars == <<a, k, i, heap>>

Swap(h, p, q) == [h EXCEPT ![p] = h[q], ![q] = h[p]]
\* heap positions are 1-based: the parent of p is p \div 2
RECURSIVE Up(_, _)
Up(h, p) == IF p > 1 /\ h[p][1] < h[p \div 2][1] THEN Up(Swap(h, p, p \div 2), p \div 2) ELSE h
\* move the hole at the root down to a leaf along the smaller children, then up
RECURSIVE Leaf(_, _)
Leaf(h, p) ==
    IF 2 * p > Len(h) THEN <<h, p>>
    ELSE LET c == IF 2 * p + 1 <= Len(h) /\ h[2 * p + 1][1] < h[2 * p][1] THEN 2 * p + 1 ELSE 2 * p
         IN  Leaf(Swap(h, p, c), c)
Down(h) == LET r == Leaf(h, 1) IN Up(r[1], r[2])

Init == /\ a \in UNION {[1..n -> 0..MaxScore] : n \in 1..MaxLen}
        /\ k \in 1..Len(a)
        /\ i = 0
        /\ heap = <<>>
        /\ Emit => PrintT("@@CASE " \o ToJson([a |-> a, k |-> k]))
Push == LET h == Append(heap, <<a[i + 1], i>>) IN heap' = Up(h, Len(h))
Better(v) == IF BadReplace THEN v >= heap[Len(heap)][1] ELSE v > heap[1][1]
Replace == IF Better(a[i + 1]) THEN heap' = Down([heap EXCEPT ![1] = <<a[i + 1], i>>])
           ELSE UNCHANGED heap
Next == /\ i < Len(a)
        /\ IF Len(heap) < k THEN Push ELSE Replace
        /\ i' = i + 1
        /\ UNCHANGED <<a, k>>
Spec == Init /\ [][Next]_vars

IsHeap == \A p \in 2..Len(heap) : heap[p \div 2][1] <= heap[p][1]
OwnScores == \A p \in DOMAIN heap : heap[p][1] = a[heap[p][2] + 1]
Positions == [p \in DOMAIN heap |-> heap[p][2]]
Min(x, y) == IF x < y THEN x ELSE y
TopKOfPrefix == i > 0 => ValidTopK(Positions, SubSeq(a, 1, i), Min(k, i), FALSE)
=============================================================================
