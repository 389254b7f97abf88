---------------------------- MODULE MCTokenizeFn ----------------------------
(* All small texts: the scanner finds the maximal runs; the one-shot         *)
(* algorithm (number the words, stem the distinct words, number the stems)   *)
(* and the class (stem word by word, number as they come) give the same      *)
(* tokens under gap-free numberings.                                         *)
EXTENDS TokenizeFn, TLC
CONSTANTS MaxLen, MaxTexts, Alphabet, Emptied

WordChar(c) == c # 0
Corpora == UNION {[1..n -> UNION {[1..k -> Alphabet] : k \in 0..MaxLen}] : n \in 1..MaxTexts}
Stops == {{}, {<<1, 1>>}, {<<1, 2>>, <<2, 2>>}}
\* stemmers: identity, first character, and one that empties words
StemBy(k, w) == CASE k = "none" -> w
                  [] k = "first" -> SubSeq(w, 1, 1)
                  [] k = "empties" -> IF w[1] = 2 THEN <<>> ELSE w

VARIABLES texts, stop, stem, algo
vars == <<texts, stop, stem, algo>>
Words(t) == SelectSeq(Runs(t, WordChar, 2, 0), LAMBDA w : w \notin stop)

\* the one-shot algorithm
Index(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
RECURSIVE Uniq(_, _)
Uniq(s, acc) == IF s = <<>> THEN acc ELSE Uniq(Tail(s), IF s[1] \in ToSet(acc) THEN acc ELSE Append(acc, s[1]))
AllWords(ts) == FlattenSeq([i \in DOMAIN ts |-> Words(ts[i])])
OneShot(ts, k) ==
    LET words == Uniq(AllWords(ts), <<>>)
        stems == Uniq([i \in DOMAIN words |-> StemBy(k, words[i])], <<>>)
        \* (Emptied: a variant which takes the empty stem for no token)
        kept(w) == ~Emptied \/ StemBy(k, w) # <<>>
    IN  [vocab |-> stems,
         ids |-> [i \in DOMAIN ts |-> LET ws == SelectSeq(Words(ts[i]), kept)
                                      IN [j \in DOMAIN ws |-> Index(stems, StemBy(k, words[Index(words, ws[j])]))]]]

Init == /\ texts \in Corpora /\ stop \in Stops /\ stem \in {"none", "first", "empties"}
        /\ algo = <<>>
Next == algo = <<>> /\ algo' = <<OneShot(texts, stem)>> /\ UNCHANGED <<texts, stop, stem>>
Spec == Init /\ [][Next]_vars

ScansMaximal == \A i \in DOMAIN texts : /\ Runs(texts[i], WordChar, 2, 0) = Declared(texts[i], WordChar, 2)
                                        /\ Runs(texts[i], WordChar, 1, 0) = Declared(texts[i], WordChar, 1)
SameTokens == algo # <<>> =>
    \A i \in DOMAIN texts :
        [j \in DOMAIN algo[1].ids[i] |-> algo[1].vocab[algo[1].ids[i][j]]]
            = Tokens(texts[i], WordChar, 2, 0, stop, LAMBDA w : StemBy(stem, w))
VocabularyExact == algo # <<>> =>
    ToSet(algo[1].vocab) = UNION {ToSet(Tokens(texts[i], WordChar, 2, 0, stop, LAMBDA w : StemBy(stem, w))) : i \in DOMAIN texts}
=============================================================================
