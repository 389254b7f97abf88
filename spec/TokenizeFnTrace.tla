-------------------------- MODULE TokenizeFnTrace ---------------------------
(* Validation of recorded calls of the one-shot tokenization. Characters are *)
(* code points; the classes and lower-case forms of the characters of a case *)
(* are tables of the case.                                                   *)
EXTENDS TokenizeFn, TLC, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<c, l>>
Bad(cond, name) == IF cond THEN {} ELSE {name}

Chars == Trace[c].chars            \* sequence of [c, word, space, lower]
Row(x) == LET s == SelectSeq(Chars, LAMBDA r : r.c = x) IN s[1]
InClass(x, cls) == CASE cls = "word" -> Row(x).word
                     [] cls = "nonspace" -> ~Row(x).space
                     [] cls = "az" -> x \in 97..122
                     [] cls = "nodash" -> x # 45
LowerText(t) == FlattenSeq([i \in DOMAIN t |-> Row(t[i]).lower])
Stem(kind, table, w) ==
    CASE kind = "none" -> w
      [] kind = "prefix3" -> SubSeq(w, 1, IF Len(w) < 3 THEN Len(w) ELSE 3)
      [] kind = "plural" -> IF w # <<>> /\ w[Len(w)] = 115 THEN SubSeq(w, 1, Len(w) - 1) ELSE w
      [] kind = "one" -> <<120>>
      [] kind = "table" -> LET s == SelectSeq(table, LAMBDA r : r[1] = w) IN IF s = <<>> THEN w ELSE s[1][2]

Expected(e) ==
    [i \in DOMAIN e.texts |->
        LET t == IF e.lower THEN LowerText(e.texts[i]) ELSE e.texts[i]
        IN  Tokens(t, LAMBDA x : InClass(x, e.cls), e.min, e.max, ToSet(e.stop), LAMBDA w : Stem(e.stem, Trace[c].stems, w))]
\* what becomes of a text without any word is left open: no token, or the empty token
Text(e, i, want, got) ==
    \/ got = want[i]
    \/ want[i] = <<>> /\ got = << <<>> >>

CallBad(e) ==
    LET want == Expected(e)
        docs == e.obs.docs
        vocab == [v \in DOMAIN e.obs.vocab |-> e.obs.vocab[v][1]]
        idOf(w) == (CHOOSE p \in ToSet(e.obs.vocab) : p[1] = w)[2]
    IN  IF ~e.obs.ok THEN {"tokenizing failed"}
        ELSE IF Len(docs) # Len(want) THEN {"not one list of tokens per text"}
        ELSE Bad(\A i \in DOMAIN want : Text(e, i, want, docs[i]), "the tokens of a text are not the documented ones")
             \cup Bad(IsInjective(vocab) /\ \A i \in DOMAIN vocab : e.obs.vocab[i][2] \in 0..(Len(vocab) - 1)
                      /\ Cardinality({e.obs.vocab[j][2] : j \in DOMAIN vocab}) = Len(vocab), "the IDs are not a gap-free numbering of the vocabulary")
             \cup Bad(ToSet(vocab) = UNION {ToSet(docs[n]) : n \in DOMAIN docs}, "the vocabulary does not hold exactly the tokens that occur")
             \cup (IF ToSet(vocab) = UNION {ToSet(docs[n]) : n \in DOMAIN docs}
                   THEN Bad(e.obs.ids = [i \in DOMAIN docs |-> [j \in DOMAIN docs[i] |-> idOf(docs[i][j])]], "the ID form and the string form differ")
                   ELSE {})
             \cup Bad(e.obs.converted = docs, "the tokenized form converts to other tokens")
             \cup Bad(e.obs.again, "the same call gives another result")
             \cup Bad(e.obs.untouched, "the input was changed")
             \cup Bad(\A i \in DOMAIN want : want[i] = <<>> \/ e.obs.class[i] = want[i], "the tokenizer class gives other tokens")

\* names of the same list, with words the list must and must not hold
NamesBad(e) ==
    UNION {LET r == e.obs.removed[i]
           IN  Bad(\A j \in DOMAIN r.by : ToSet(r.by[j]) = ToSet(r.by[1]), "a name and a code of a language select different stopwords")
               \cup Bad(ToSet(r.by[1]) = ToSet(r.exported), "a name selects another list than that of its language")
               \cup Bad(ToSet(e.groups[i].core) \subseteq ToSet(r.by[1]), "common stopwords are not removed")
               \cup Bad(ToSet(r.by[1]) \cap ToSet(e.groups[i].never) = {}, "other words are removed")
           : i \in DOMAIN e.groups}

EventBad(e) ==
    CASE "crash" \in DOMAIN e.obs -> {"the process died"}
      [] e.op = "call" -> CallBad(e)
      [] e.op = "names" -> IF ~e.obs.ok THEN {"a documented name of a language is refused"} ELSE NamesBad(e)
      [] e.op = "refused" -> Bad(~e.obs.ok, "an unknown selection of stopwords or stemmer was accepted")
      [] OTHER -> {"unknown event"}

Init == c \in DOMAIN Trace /\ l = 0
Next == /\ l < Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l + 1]
               bad == EventBad(e)
           IN  bad # {} => PrintT("@@BAD " \o ToJson([c |-> c, l |-> l + 1, bad |-> bad]))
        /\ l' = l + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
