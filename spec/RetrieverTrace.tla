--------------------------- MODULE RetrieverTrace ---------------------------
(* Validation of recorded histories of retrievers against module Retriever.  *)
(* One behaviour per recorded history; every event is judged, the verdicts   *)
(* (@@BAD) name the failing clauses. In phase A the structure of the         *)
(* expected scores is printed (@@EXP); the harness evaluates it in floating  *)
(* point and hands the comparison back as integers in phase B:               *)
(*   dev   deviation of an observed from an expected score, in units of the  *)
(*         rounding tolerance, rounded up                                    *)
(*   rank  order-isomorphic integers of the expected scores (clusters of     *)
(*         scores closer than the tolerance are ties)                        *)
(*   ord   order-isomorphic integers of the observed scores (exact)          *)
EXTENDS Retriever, TopK, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Phase == IOEnv.PHASE

VARIABLES c, l, st
vars == <<c, l, st>>

Bad(cond, name) == IF cond THEN {} ELSE {name}
UnionOf(seq) == UNION Range(seq)

---------------------------------------------------------------------------
\* requests

IsRequest(e) == e.op \in {"score", "retrieve"}

\* the expected answers of a request, one per query
Expected(s, e) ==
    IF e.op = "score" THEN <<Answer(s, e.rep, e.q)>>
    ELSE [i \in DOMAIN e.qs |-> Answer(s, e.rep, e.qs[i])]

NumDocs(s) == Len(s.docs)

\* a corpus passed to the call takes precedence over the attached one
Entries(s, e) == IF e.passed THEN e.codes ELSE s.corpus
RowBad(e, s, i) ==
    LET n == NumDocs(s)
        pos == e.obs.pos[i]
        o == e.num.rows[i]
    IN  IF ~IsSelection(pos, n, e.k) THEN {"row is not a selection of k distinct documents"}
        ELSE Bad(NoBetterOmitted(pos, o.rank), "a document with a higher score is omitted")
             \cup Bad(\A j \in DOMAIN o.dev : o.dev[j] <= 1, "a returned score is not the score of the returned document")
             \cup Bad(e.sorted => NonIncreasing(o.ord), "scores are not in non-increasing order")
             \cup Bad(~e.hascorpus \/ \A j \in DOMAIN pos : e.obs.docs[i][j] = Entries(s, e)[pos[j] + 1],
                      "a returned document is not the corpus entry of its position")

ShapeBad(e, s) ==
    Bad(Len(e.obs.pos) = Len(e.qs) /\ e.obs.shape = <<Len(e.qs), e.k>>, "result does not have shape queries by k")

RequestBad(s, e) ==
    IF ~e.valid THEN Bad(~e.obs.ok, "an invalid request was answered")
                     \cup Bad("crash" \notin DOMAIN e.obs, "an invalid request crashed the process")
    ELSE IF ~e.obs.ok THEN {"a valid request failed"}
    ELSE (IF "mutated" \in DOMAIN e.obs
          THEN Bad(~e.obs.mutated, "the request changed the objects passed in") ELSE {})
         \cup Bad(e.obs.dtype = e.dtype, "scores do not have the requested dtype")
         \cup IF e.op = "score"
              THEN Bad(e.obs.len = NumDocs(s), "not one score per document")
                   \cup IF Phase = "B" /\ e.obs.len = NumDocs(s)
                        THEN Bad(\A d \in DOMAIN e.num.dev : e.num.dev[d] <= 1, "a score differs from the formula")
                        ELSE {}
              ELSE LET sb == ShapeBad(e, s)
                   IN  IF sb # {} THEN sb
                       ELSE Bad(e.obs.same, "return forms differ")
                            \cup (IF "alone" \in DOMAIN e.obs
                                  THEN Bad(e.obs.alone, "a query retrieved alone has another result than in the batch") ELSE {})
                            \cup (IF "merged" \in DOMAIN e.obs
                                  THEN Bad(e.obs.merged, "merged results are not the concatenation") ELSE {})
                            \cup IF Phase = "B" THEN UNION {RowBad(e, s, i) : i \in DOMAIN e.qs} ELSE {}

---------------------------------------------------------------------------
\* events: verdict and next state

SameIndex(x, y) == x.docs = y.docs /\ x.extra = y.extra /\ x.method = y.method /\ x.idf = y.idf
EventBad(s0, e) ==
    CASE IsRequest(e) -> RequestBad(Ret(s0, e.r), e)
      [] e.op = "index" ->
           IF e.valid
           THEN Bad(e.obs.ok, "indexing failed")
                \cup (IF e.obs.ok THEN Bad(~e.obs.mutated, "indexing changed the caller's objects") ELSE {})
           ELSE Bad(~e.obs.ok, "an invalid corpus was indexed")
      [] e.op = "load" -> IF e.valid THEN Bad(e.obs.ok, "loading failed")
                                          \cup (IF e.obs.ok THEN Bad(e.obs.params, "loaded parameters differ from the saved ones") ELSE {})
                          ELSE Bad(~e.obs.ok, "loading a directory without an index succeeded")
      [] e.op = "corpus" ->
           LET s == Ret(s0, e.r)
           IN  Bad(e.obs.ok, "reading the corpus failed")
               \cup IF e.obs.ok
                    THEN Bad(e.obs.has = s.has, "corpus present or absent against the history")
                         \cup Bad(e.obs.codes = s.corpus, "the corpus differs from the stored documents")
                    ELSE {}
      [] e.op \in {"new", "save", "activate", "noise", "attach", "object"} ->
           Bad(e.obs.ok \/ "maybe" \in DOMAIN e, "operation failed: " \o e.op)
      [] e.op = "twin" ->
           IF SameIndex(Ret(s0, e.r), Ret(s0, e.s))
           THEN Bad(e.obs.ok /\ e.obs.same, "the loaded retriever is not identical to the saved one")
           ELSE {"twins which differ"}
      [] OTHER -> {"unknown event"}

EventNext(s0, e) ==
    CASE e.op = "new" -> DoNew(s0, e.r, e.method, e.idf)
      [] e.op = "index" /\ e.valid -> DoIndex(s0, e.r, e.docs, Range(e.extra))
      [] e.op = "attach" -> DoAttach(s0, e.r, e.codes, e.wcodes)
      [] e.op = "save" -> DoSave(s0, e.r, e.dir, e.given, e.wcodes)
      [] e.op = "load" /\ e.valid -> DoLoad(s0, e.r, e.dir, e.withcorpus)
      [] OTHER -> s0

\* what the harness has to evaluate
Emit(s0, e) ==
    IF Phase = "A" /\ IsRequest(e) /\ e.valid /\ e.obs.ok /\ ~Ret(s0, e.r).none
    THEN PrintT("@@EXP " \o ToJson([c |-> c, l |-> l + 1, tree |-> <<Ret(s0, e.r).method, Ret(s0, e.r).idf>>,
                                    rows |-> Expected(Ret(s0, e.r), e)]))
    ELSE TRUE

Trees == [m \in Methods |-> [i \in Methods |-> FormulaTree(m, i)]]

Init == /\ c \in DOMAIN Trace
        /\ l = 0
        /\ st = State0
        /\ (c = 1 /\ Phase = "A") => PrintT("@@EXP " \o ToJson([trees |-> Trees]))

Next == /\ l < Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l + 1]
               bad == EventBad(st, e)
           IN  /\ bad # {} => PrintT("@@BAD " \o ToJson([c |-> c, l |-> l + 1, bad |-> bad]))
               /\ Emit(st, e)
               /\ st' = EventNext(st, e)
        /\ l' = l + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

\* the state of every recorded history is well-formed
TypeOK == \A r \in DOMAIN st.ret : st.ret[r].none \/ Len(st.ret[r].docs) >= 0
=============================================================================
