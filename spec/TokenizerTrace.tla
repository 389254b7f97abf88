--------------------------- MODULE TokenizerTrace ---------------------------
(* Validation of recorded histories of tokenizers. The vocabulary is         *)
(* observed after every event; which IDs are handed out is left open as long *)
(* as the vocabulary stays coherent and stable.                              *)
EXTENDS TokenizerCore, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st
vars == <<c, l, st>>
Bad(cond, name) == IF cond THEN {} ELSE {name}

Empty == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Tok(w) == Trace[c].stem[w + 1]

\* the vocabulary as observed: a sequence of <<token, id>>
Vocab(pairs) == [t \in {pairs[i][1] : i \in DOMAIN pairs} |-> (CHOOSE p \in ToSet(pairs) : p[1] = t)[2]]
VocabBad(pairs) == Bad(Cardinality({pairs[i][1] : i \in DOMAIN pairs}) = Len(pairs) /\ Coherent(Vocab(pairs)),
                       "the vocabulary is not a numbering of distinct tokens from 0")
Split(text, allow) == IF allow /\ text = <<>> THEN <<0>> ELSE text
ModeNow(V, m) == IF m = "if_empty" THEN (IF DOMAIN V = {} THEN "on" ELSE "off") ELSE m

\* expected tokens of a document, V before and V2 after; two answers where the empty token is in the
\* vocabulary only because a word was stemmed to the empty string (with updating on, this can happen
\* to a stream that is not "calm": the vocabulary was emptied or replaced since it began)
DocTokens(text, mode, allow, V, V2, W, stop, calm) ==
    LET t == TokensOf(Split(text, allow), mode, V, W, stop, Tok)
    IN  IF t # <<>> \/ ~allow \/ 0 \notin DOMAIN V2 THEN {t}
        ELSE IF 0 \in W \/ (mode = "on" /\ calm) THEN {<<0>>}
        ELSE {<<>>, <<0>>}

\* known words after texts
RECURSIVE After(_, _, _, _, _, _)
After(texts, mode, allow, V, W, stop) ==
    IF texts = <<>> THEN W
    ELSE After(Tail(texts), mode, allow, V, WordsAfter(Split(texts[1], allow), mode, V, W, stop, Tok), stop)
Known(texts, mode, allow, V, V2, W, stop) ==
    After(texts, mode, allow, V, W, stop) \cup (IF mode = "on" /\ allow /\ 0 \in DOMAIN V2 THEN {0} ELSE {})

\* the words known when document i is tokenized
Before(texts, i, mode, allow, V, W, stop) == After(SubSeq(texts, 1, i - 1), mode, allow, V, W, stop)

\* may texts turn vocabulary V into V2?
ChangeBad2(texts, mode, allow, V, V2, W, stop, optional) ==
    LET need == UNION {Needed(Split(texts[i], allow), mode, allow, V, W, stop, Tok) : i \in DOMAIN texts}
        may == IF mode = "on" THEN need \cup (IF allow THEN {0} ELSE {}) ELSE {}
    IN  Bad(Keeps(V, V2), "a token lost or changed its ID")
        \cup Bad(need \ optional \subseteq DOMAIN V2, "a token of the text is not in the vocabulary although updating is on")
        \cup Bad(DOMAIN V2 \ DOMAIN V \subseteq may, "a token was added against the update mode")
ChangeBad(texts, mode, allow, V, V2, W, stop) == ChangeBad2(texts, mode, allow, V, V2, W, stop, {})
DocsBad2(docs, texts, mode, allow, V, V2, W, stop, calm) ==
    IF Len(docs) # Len(texts) THEN {"not one list of tokens per text"}
    ELSE Bad(\A i \in DOMAIN texts :
                 docs[i] \in DocTokens(texts[i], mode, allow, V, V2, Before(texts, i, mode, allow, V, W, stop), stop, calm),
             "the tokens of a text are not what its words give")
DocsBad(docs, texts, mode, allow, V, V2, W, stop) == DocsBad2(docs, texts, mode, allow, V, V2, W, stop, TRUE)
IdsBad(ids, docs, V2) ==
    Bad(Len(ids) = Len(docs) /\ \A i \in DOMAIN ids : /\ Len(ids[i]) = Len(docs[i])
            /\ \A j \in DOMAIN ids[i] : docs[i][j] \in DOMAIN V2 /\ V2[docs[i][j]] = ids[i][j],
        "a returned ID is not the ID of its token in the vocabulary")

T(s, o) == s.tok[o]
EventBad(s, e) ==
    CASE "crash" \in DOMAIN e.obs -> {"the process died"}
      [] e.op = "new" -> Bad(e.obs.ok, "operation failed: new")
      [] e.op = "tokenize" ->
           LET t == T(s, e.o)
               mode == ModeNow(t.V, e.mode)
               V2 == Vocab(e.obs.vocab)
           IN  IF ~e.obs.ok THEN {"tokenizing failed"}
               ELSE VocabBad(e.obs.vocab) \cup ChangeBad(e.texts, mode, e.allow, t.V, V2, t.W, t.stop)
                    \cup DocsBad(e.obs.docs, e.texts, mode, e.allow, t.V, V2, t.W, t.stop)
                    \cup (IF e.obs.hasids THEN IdsBad(e.obs.ids, e.obs.docs, V2) ELSE {})
                    \cup Bad(e.obs.type, "not the requested form")
      [] e.op = "forms" ->
           LET t == T(s, e.o)
               mode == ModeNow(t.V, e.mode)
           IN  UNION {LET f == e.obs.forms[i]
                          V2 == Vocab(f.vocab)
                      IN  IF ~f.ok THEN {"tokenizing failed"}
                          ELSE VocabBad(f.vocab) \cup ChangeBad(e.texts, mode, e.allow, t.V, V2, t.W, t.stop)
                               \cup DocsBad(f.docs, e.texts, mode, e.allow, t.V, V2, t.W, t.stop)
                               \cup Bad(f.docs = e.obs.forms[1].docs, "the output forms give different tokens")
                               \cup Bad(DOMAIN V2 = DOMAIN Vocab(e.obs.forms[1].vocab), "the output forms change the vocabulary differently")
                      : i \in DOMAIN e.obs.forms}
      [] e.op = "open" ->
           IF ~e.obs.ok THEN {"opening a stream failed"}
           ELSE LET V2 == Vocab(e.obs.vocab)
                    t == T(s, e.o)
                IN  VocabBad(e.obs.vocab) \cup Bad(Keeps(t.V, V2), "a token lost or changed its ID")
                    \cup Bad(DOMAIN V2 \ DOMAIN t.V \subseteq (IF ModeNow(t.V, e.mode) = "on" /\ e.allow THEN {0} ELSE {}),
                             "a token was added against the update mode")
      [] e.op = "next" ->
           LET r == s.streams[e.s]
               t == T(s, r.o)
               V2 == Vocab(e.obs.vocab)
               todo == IF r.texts = <<>> THEN <<>> ELSE <<r.texts[1]>>
           IN  IF ~e.obs.ok THEN {"reading a stream failed"}
               ELSE IF e.obs.ended # (r.texts = <<>>) THEN {"the stream does not give one list of tokens per text"}
               ELSE VocabBad(e.obs.vocab)
                    \* (the empty token is added when a stream begins; a vocabulary emptied or replaced later may lack it)
                    \cup ChangeBad2(todo, r.mode, r.allow, t.V, V2, t.W, t.stop, IF r.calm THEN {} ELSE {0})
                    \cup DocsBad2(e.obs.docs, todo, r.mode, r.allow, t.V, V2, t.W, t.stop, r.calm)
                    \cup IdsBad(e.obs.ids, e.obs.docs, V2)
      [] e.op = "reset" -> Bad(e.obs.ok /\ e.obs.vocab = <<>>, "resetting does not empty the vocabulary")
      [] e.op = "refused" -> Bad(~e.obs.ok, "an unknown mode was accepted")
                             \cup Bad(Vocab(e.obs.vocab) = T(s, e.o).V, "a refused call changed the vocabulary")
      [] e.op = "save" -> Bad(e.obs.ok, "operation failed: save")
                          \cup Bad(Vocab(e.obs.vocab) = T(s, e.o).V, "saving changed the vocabulary")
      [] e.op = "load" ->
           IF ~e.obs.ok THEN {"operation failed: load"}
           ELSE VocabBad(e.obs.vocab) \cup Bad(~e.vocab \/ Vocab(e.obs.vocab) = s.disk[e.dir].V, "the loaded vocabulary is not the saved one")
                \cup Bad(e.vocab \/ Vocab(e.obs.vocab) = T(s, e.o).V, "loading stopwords changed the vocabulary")
                \cup Bad(~e.stopwords \/ ToSet(e.obs.stop) = s.disk[e.dir].stop, "the loaded stopwords are not the saved ones")
      [] e.op = "twin" -> Bad(e.obs.ok /\ e.obs.same, "the loaded tokenizer continues differently than the saved one")
      [] e.op = "old" ->
           IF e.r \notin DOMAIN s.res THEN {}
           ELSE Bad(e.obs.ok /\ e.obs.docs = s.res[e.r], "a result returned earlier changed its meaning")
      [] e.op = "index" -> Bad(e.obs.ok, "an index in the same directory is not usable")
      [] OTHER -> {"unknown event"}

Disturb(streams, o) == [k \in DOMAIN streams |-> IF streams[k].o = o /\ streams[k].begun THEN [streams[k] EXCEPT !.calm = FALSE] ELSE streams[k]]
EventNext(s, e) ==
    CASE "crash" \in DOMAIN e.obs -> s
      [] e.op = "new" -> [s EXCEPT !.tok = Put(@, e.o, [V |-> Empty, W |-> {}, stop |-> ToSet(e.stop)])]
      [] e.op = "tokenize" /\ e.obs.ok ->
           LET t == T(s, e.o)
               V2 == Vocab(e.obs.vocab)
           IN  [s EXCEPT !.tok[e.o] = [@ EXCEPT !.V = V2, !.W = Known(e.texts, ModeNow(t.V, e.mode), e.allow, t.V, V2, t.W, t.stop)],
                         !.res = IF e.keep # "" THEN Put(@, e.keep, e.obs.docs) ELSE @]
      [] e.op = "open" /\ e.obs.ok ->
           [s EXCEPT !.streams = Put(@, e.s, [o |-> e.o, texts |-> e.texts, mode |-> ModeNow(T(s, e.o).V, e.mode), allow |-> e.allow,
                                              begun |-> FALSE, calm |-> TRUE])]
      [] e.op = "next" /\ e.obs.ok /\ ~e.obs.ended ->
           LET r == s.streams[e.s]
               t == T(s, r.o)
               V2 == Vocab(e.obs.vocab)
               W1 == After(<<r.texts[1]>>, r.mode, r.allow, t.V, t.W, t.stop)
               W2 == W1 \cup (IF ~r.begun /\ r.mode = "on" /\ r.allow /\ 0 \in DOMAIN V2 THEN {0} ELSE {})
           IN  [s EXCEPT !.tok[r.o] = [@ EXCEPT !.V = V2, !.W = W2],
                         !.streams[e.s] = [@ EXCEPT !.texts = Tail(@), !.begun = TRUE]]
      [] e.op = "next" /\ e.obs.ok -> 
           \* (a stream over no texts begins, and ends, here)
           LET r == s.streams[e.s]
               V2 == Vocab(e.obs.vocab)
               W2 == T(s, r.o).W \cup (IF ~r.begun /\ r.mode = "on" /\ r.allow /\ 0 \in DOMAIN V2 THEN {0} ELSE {})
           IN  [s EXCEPT !.tok[r.o] = [@ EXCEPT !.V = V2, !.W = W2], !.streams[e.s].begun = TRUE]
      [] e.op = "reset" -> [s EXCEPT !.tok[e.o] = [@ EXCEPT !.V = Empty, !.W = {}], !.streams = Disturb(@, e.o)]
      [] e.op = "save" -> [s EXCEPT !.disk = Put(@, e.dir, T(s, e.o))]
      [] e.op = "load" /\ e.obs.ok ->
           [s EXCEPT !.tok[e.o] = [V |-> IF e.vocab THEN s.disk[e.dir].V ELSE @.V, W |-> IF e.vocab THEN s.disk[e.dir].W ELSE @.W,
                                   stop |-> IF e.stopwords THEN s.disk[e.dir].stop ELSE @.stop],
                     !.streams = Disturb(@, e.o)]
      [] OTHER -> s

Init == c \in DOMAIN Trace /\ l = 0 /\ st = [tok |-> Empty, streams |-> Empty, disk |-> Empty, res |-> Empty]
Next == /\ l < Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l + 1]
               bad == EventBad(st, e)
           IN  /\ bad # {} => PrintT("@@BAD " \o ToJson([c |-> c, l |-> l + 1, bad |-> bad]))
               /\ st' = EventNext(st, e)
        /\ l' = l + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
