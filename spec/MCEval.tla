------------------------------- MODULE MCEval -------------------------------
(* All rankings and judgements of few documents: the measures are what is    *)
(* expected of them. A step improves a ranking: it swaps the scores of two   *)
(* documents so that the better one moves up, or looks one rank deeper.      *)
EXTENDS Eval, Rat, TLC
CONSTANTS NDocs, MaxGrade, MaxScore, BadTotal

VARIABLES rels, run, k, m      \* m: the measures
vars == <<rels, run, k, m>>
Docs == 1..NDocs
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN <<0, 1>> ELSE LET t == TLCEval(RSum(Tail(s))) IN TLCEval(RAdd(s[1], t))
\* (logarithms are replaced by another decreasing discount)
DCG(g) == TLCEval(RSum([i \in DOMAIN g |-> <<g[i], i>>]))
Ratio(a, b) == IF b[1] = 0 THEN <<0, 1>> ELSE RDiv(a, b)
Measures(js, rk, n) ==
    LET g == TLCEval(Gains(rk, js, n))
        total == IF BadTotal THEN Hits(Gains(rk, js, Len(rk))) ELSE Relevant(js)
        p == TLCEval(Precisions(g))
    IN  TLCEval([p |-> Norm(Hits(g), n), recall |-> Ratio(RNum(Hits(g)), RNum(total)),
                 ap |-> Ratio(TLCEval(RSum([j \in DOMAIN p |-> Norm(p[j][1], p[j][2])])), RNum(total)),
                 ndcg |-> Ratio(DCG(g), DCG(Ideal(js, n)))])

Pairs(f) == LET s == SetToSortSeq({d \in Docs : f[d] # -9}, LAMBDA x, y : x < y) IN [i \in DOMAIN s |-> <<s[i], f[s[i]]>>]
Init == /\ rels \in {Pairs(f) : f \in [Docs -> {-9} \cup -1..MaxGrade]}
        /\ run \in {Pairs(f) : f \in [Docs -> {-9} \cup 0..MaxScore]}
        /\ k \in 1..NDocs + 1
        /\ m = Measures(rels, run, k)
Swap(i, j) == /\ GradeOf(rels, run[i][1]) > GradeOf(rels, run[j][1])
              /\ Before(run[j], run[i])
              /\ \A x \in DOMAIN run : x \notin {i, j} => run[x][2] \notin {run[i][2], run[j][2]}
              /\ run[i][2] # run[j][2]
              /\ run' = [run EXCEPT ![i] = <<run[i][1], run[j][2]>>, ![j] = <<run[j][1], run[i][2]>>]
              /\ m' = Measures(rels, run', k)
              /\ UNCHANGED <<rels, k>>
Deeper == k <= NDocs /\ k' = k + 1 /\ m' = Measures(rels, run, k') /\ UNCHANGED <<rels, run>>
Next == (\E i, j \in DOMAIN run : Swap(i, j)) \/ Deeper
Spec == Init /\ [][Next]_vars

Unit(x) == ~RLess(x, <<0, 1>>) /\ ~RLess(<<1, 1>>, x)
InRange == Unit(m.p) /\ Unit(m.recall) /\ Unit(m.ap) /\ Unit(m.ndcg)
\* an order of the documents by grade is perfect
Sorted == LET r == Ranking(run)
          IN  /\ \A i \in 1..Len(r) - 1 : GradeOf(rels, r[i]) >= GradeOf(rels, r[i + 1])
              /\ \A i \in DOMAIN rels : rels[i][2] > 0 => rels[i][1] \in ToSet(r)
Perfect == (Sorted /\ Relevant(rels) > 0) => (m.ndcg = <<1, 1>> /\ (k >= Relevant(rels) => (m.recall = <<1, 1>> /\ m.ap = <<1, 1>>)))
Complete == (Relevant(rels) > 0 /\ m.recall = <<1, 1>>) => \A i \in DOMAIN rels : rels[i][2] > 0 => rels[i][1] \in ToSet(Ranking(run))
NothingRelevant == Relevant(rels) = 0 => (m.p[1] = 0 /\ m.recall[1] = 0 /\ m.ap[1] = 0 /\ m.ndcg[1] = 0)
APBelowRecall == ~RLess(m.recall, m.ap)
Improves == [][IF k' = k THEN ~RLess(m'.p, m.p) /\ ~RLess(m'.recall, m.recall) /\ ~RLess(m'.ap, m.ap) /\ ~RLess(m'.ndcg, m.ndcg)
               ELSE ~RLess(m'.recall, m.recall) /\ ~RLess(m'.ap, m.ap)]_vars
=============================================================================
