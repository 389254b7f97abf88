------------------------------ MODULE EvalTrace ------------------------------
(* Validation of recorded evaluations. Phase A prints, for every evaluation, *)
(* the terms of every measure of every query; the harness sums and averages  *)
(* them in floating point. Phase B judges the distances. Identifiers are     *)
(* numbers in the order of their UTF-8 encoding; scores are integers.        *)
EXTENDS Eval, Json, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
PhaseA == IOEnv.PHASE = "A"
VARIABLES c, l
vars == <<c, l>>
Bad(cond, name) == IF cond THEN {} ELSE {name}

\* the queries which have judgements and results (pairs of indices)
Judged(e) == SelectSeq([i \in DOMAIN e.results |-> i], LAMBDA i : \E j \in DOMAIN e.qrels : e.qrels[j][1] = e.results[i][1])
RelsOf(e, q) == e.qrels[CHOOSE j \in DOMAIN e.qrels : e.qrels[j][1] = q][2]
Terms(e) ==
    LET qs == Judged(e)
    IN  [i \in DOMAIN qs |->
          LET q == e.results[qs[i]][1]
              rels == RelsOf(e, q)
              run == TLCEval(Drop(e.results[qs[i]][2], q, e.ignore))
          IN  [nrel |-> Relevant(rels),
               at |-> [x \in DOMAIN e.ks |->
                         LET g == TLCEval(Gains(run, rels, e.ks[x]))
                         IN  [hits |-> Hits(g), precisions |-> Precisions(g), gains |-> g, ideal |-> Ideal(rels, e.ks[x])]]]]

Measures == {"ndcg", "map", "recall", "precision"}
\* distances in units of 10^-8; results are rounded to five decimal places
EventBad(e) ==
    CASE "crash" \in DOMAIN e.obs -> {"the process died"}
      [] e.op = "evaluate" ->
           IF ~e.obs.ok THEN {"evaluating failed"}
           ELSE Bad(e.obs.names, "not one value per measure and cut-off, named after them")
                \cup UNION {Bad(Len(e.obs.dev[m]) = Len(e.ks) /\ \A x \in DOMAIN e.obs.dev[m] : e.obs.dev[m][x] <= 501,
                                "not the average over the judged queries: " \o m) : m \in Measures}
      [] e.op = "results" ->
           Bad(e.obs.ok /\ Len(e.obs.rows) = Len(e.ids)
               /\ \A i \in DOMAIN e.ids : \E j \in DOMAIN e.obs.rows :
                     e.obs.rows[j][1] = e.ids[i] /\ ToSet(e.obs.rows[j][2]) = {<<e.docs[i][k], e.scores[i][k]>> : k \in DOMAIN e.docs[i]},
               "results are not filed under their query with the score of every document")
      [] e.op = "keys" -> Bad(e.obs.ok /\ ToSet(e.obs.rows) = ToSet(e.want), "metric names are not shortened to their cut-off")
      [] OTHER -> {"unknown event"}

Init == c \in DOMAIN Trace /\ l = 0
Next == /\ l < Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l + 1]
               bad == IF PhaseA THEN {} ELSE EventBad(e)
           IN  /\ bad # {} => PrintT("@@BAD " \o ToJson([c |-> c, l |-> l + 1, bad |-> bad]))
               /\ (PhaseA /\ e.op = "evaluate") => PrintT("@@EXP " \o ToJson([c |-> c, l |-> l + 1, terms |-> Terms(e)]))
        /\ l' = l + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
