---------------------------- MODULE TokenizerCore ----------------------------
(* What a tokenizer makes of a text. Strings are integers, 0 is the empty    *)
(* string. A vocabulary V maps tokens (words, or stems with a stemmer) to    *)
(* IDs; W is the set of words the tokenizer has mapped so far. A text is the *)
(* sequence of words the splitter finds in the lower-cased text.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

Modes == {"on", "off", "never"}

Coherent(V) == \A t \in DOMAIN V : /\ V[t] \in 0..(Cardinality(DOMAIN V) - 1)
                                   /\ \A u \in DOMAIN V : u # t => V[u] # V[t]
Keeps(V, V2) == \A t \in DOMAIN V : t \in DOMAIN V2 /\ V2[t] = V[t]

\* tok(w) is the token of a word, stop the stopwords
Words(text, stop) == SelectSeq(text, LAMBDA w : w \notin stop)
\* the words of a text which become tokens
Used(text, mode, V, W, stop, tok(_)) ==
    SelectSeq(Words(text, stop),
              LAMBDA w : CASE mode = "on" -> TRUE
                           [] mode = "off" -> tok(w) \in DOMAIN V
                           [] mode = "never" -> w \in W)
TokensOf(text, mode, V, W, stop, tok(_)) ==
    LET u == Used(text, mode, V, W, stop, tok) IN [i \in DOMAIN u |-> tok(u[i])]
\* words known after the text
WordsAfter(text, mode, V, W, stop, tok(_)) ==
    IF mode = "never" THEN W ELSE W \cup ToSet(Used(text, mode, V, W, stop, tok))
\* tokens which must be added
Needed(text, mode, allow, V, W, stop, tok(_)) ==
    IF mode # "on" THEN {}
    ELSE LET ts == TokensOf(text, mode, V, W, stop, tok)
         IN  ToSet(ts) \cup (IF ts = <<>> /\ allow THEN {0} ELSE {})
=============================================================================
