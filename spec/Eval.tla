-------------------------------- MODULE Eval --------------------------------
(* The measures of an evaluated ranking. A run is a sequence of              *)
(* <<document, score>>, judgements are a sequence of <<document, grade>>.    *)
(* Documents are numbers in the order of their identifiers.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y

\* best score first, the greater identifier first among equal scores
Before(p, q) == p[2] > q[2] \/ (p[2] = q[2] /\ p[1] > q[1])
Ranking(run) == LET s == SortSeq(run, Before) IN [i \in DOMAIN s |-> s[i][1]]
Grade(rels, d) == IF \E i \in DOMAIN rels : rels[i][1] = d THEN (CHOOSE i \in DOMAIN rels : rels[i][1] = d) ELSE 0
GradeOf(rels, d) == LET i == Grade(rels, d) IN IF i = 0 THEN 0 ELSE Max2(0, rels[i][2])
Relevant(rels) == Cardinality({i \in DOMAIN rels : rels[i][2] > 0})

\* gains of the first k ranks, and of the best possible ranking
Gains(run, rels, k) == LET r == Ranking(run) IN [i \in 1..Min2(k, Len(r)) |-> GradeOf(rels, r[i])]
Ideal(rels, k) == LET s == SortSeq([i \in DOMAIN rels |-> Max2(0, rels[i][2])], LAMBDA x, y : x > y)
                  IN  [i \in 1..Min2(k, Len(s)) |-> s[i]]
Hits(g) == Cardinality({i \in DOMAIN g : g[i] > 0})
\* numerators of the average precision: <<hits up to rank, rank>> at the ranks of relevant documents
Precisions(g) == LET at == SelectSeq([i \in DOMAIN g |-> i], LAMBDA i : g[i] > 0)
                 IN  [j \in DOMAIN at |-> <<j, at[j]>>]

\* what evaluation looks at
Drop(run, q, ignore) == IF ignore THEN SelectSeq(run, LAMBDA p : p[1] # q) ELSE run
=============================================================================
