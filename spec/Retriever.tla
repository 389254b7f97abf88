----------------------------- MODULE Retriever -----------------------------
(* Abstract state of a process using the library: retrievers, each with a    *)
(* snapshot of the corpus it was indexed on, and directories holding saved   *)
(* snapshots. Transitions are functions from state and action to state; the  *)
(* answers of a retriever are a function of its snapshot only.               *)
EXTENDS Scoring, TLC

EMPTY == 0          \* the reserved empty token
NoSnap == [none |-> TRUE]

State0 == [ret |-> << >>, dir |-> << >>]
\* ret and dir are functions with string domains, extended on demand
Put(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d

Ret(st, r) == Get(st.ret, r, NoSnap)
Dir(st, d) == Get(st.dir, d, NoSnap)

DoNew(st, r, method, idf) ==
    [st EXCEPT !.ret = Put(@, r, [none |-> TRUE, method |-> method, idf |-> idf,
                                  extra |-> {}, docs |-> <<>>, corpus |-> <<>>, stored |-> <<>>, has |-> FALSE])]
\* indexing replaces documents (extra: vocabulary tokens that are in no document);
\* variant and attached corpus belong to the retriever
DoIndex(st, r, docs, extra) ==
    LET old == Ret(st, r)
    IN  [st EXCEPT !.ret = Put(@, r, [none |-> FALSE, docs |-> docs, extra |-> extra,
                                      method |-> old.method, idf |-> old.idf,
                                      corpus |-> old.corpus, stored |-> old.stored, has |-> old.has])]
\* codes: the entries of the corpus; wcodes: what a save stores for them (strings are
\* wrapped with their position)
DoAttach(st, r, codes, wcodes) ==
    [st EXCEPT !.ret = Put(@, r, [Ret(st, r) EXCEPT !.corpus = codes, !.stored = wcodes, !.has = TRUE])]

\* a save stores snapshot and corpus: the one given to the call, else the attached one,
\* else the corpus file that is already in the directory stays
DoSave(st, r, d, given, wcodes) ==
    LET s == Ret(st, r)
        old == Dir(st, d)
        has == given \/ s.has \/ (~old.none /\ old.has)
        c == IF given THEN wcodes ELSE IF s.has THEN s.stored
             ELSE IF ~old.none THEN old.corpus ELSE <<>>
    IN  [st EXCEPT !.dir = Put(@, d, [s EXCEPT !.corpus = c, !.stored = c, !.has = has])]
DoLoad(st, r, d, withCorpus) ==
    LET s == Dir(st, d)
    IN  [st EXCEPT !.ret = Put(@, r, IF withCorpus THEN s
                                     ELSE [s EXCEPT !.corpus = <<>>, !.stored = <<>>, !.has = FALSE])]

\* The query that is scored. A non-empty query of token IDs without any known ID
\* stands for the empty token; other unknown tokens do not count.
KnownTo(s, t) == t \in s.extra \/ \E d \in DOMAIN s.docs : Occurs(t, s.docs[d])
Effective(s, rep, q) ==
    IF rep = "int" /\ q # <<>> /\ ~\E i \in DOMAIN q : KnownTo(s, q[i])
    THEN <<EMPTY>> ELSE q
Answer(s, rep, q) == ScoreTerms(Effective(s, rep, q), s.docs)
=============================================================================
