------------------------------ MODULE Tokenizer ------------------------------
(* The tokenizer as a state machine: batch calls, streams consumed document  *)
(* by document and interleaved, resets, saving and loading. IDs are given    *)
(* out as the code does. Switches:                                           *)
(*   Counter  "size": the next ID is the number of tokens;                   *)
(*            "captured": every stream counts on from the size at its start  *)
(*   EmptyId  "careful" or "max": the ID of the empty token is the highest   *)
(*            ID plus one, even if a word was stemmed to the empty string    *)
EXTENDS TokenizerCore, Json

CONSTANTS UseStemmer, Counter, EmptyId, MaxStreams, SomeTexts, WithSave, Emit, Depth

AllWords == {1, 2, 3, 4}
Stop == {4}
Stem == (0 :> 0) @@ (1 :> 11) @@ (2 :> 11) @@ (3 :> 0) @@ (4 :> 14)
Tok(w) == IF UseStemmer THEN Stem[w] ELSE w
Texts == IF SomeTexts THEN {<<>>, <<1>>, <<3>>, <<2, 4>>} ELSE UNION {[1..n -> AllWords] : n \in 0..2}

VARIABLES V, W, streams, saved, last, hist
vars == <<V, W, streams, saved, last, hist>>

NOTHING == [none |-> TRUE]
Empty == [x \in {} |-> 0]
Init == /\ V = Empty /\ W = {} /\ streams = <<>> /\ saved = NOTHING
        /\ last = [ids |-> <<>>, toks |-> <<>>] /\ hist = <<>>
Log(a) == hist' = IF Emit THEN Append(hist, a) ELSE hist

MaxId(v) == IF DOMAIN v = {} THEN -1 ELSE CHOOSE m \in Range(v) : \A x \in Range(v) : x <= m
\* the reserved empty token is registered when tokenizing begins
AddEmpty(v, w, mode, allow) ==
    IF ~(mode = "on" /\ allow) \/ 0 \in w THEN v
    ELSE IF 0 \in DOMAIN v /\ EmptyId = "careful" THEN v
    ELSE (0 :> MaxId(v) + 1) @@ v

\* one document: vocabulary and next ID afterwards
RECURSIVE Learn(_, _, _)
Learn(v, next, toks) ==
    IF toks = <<>> THEN <<v, next>>
    ELSE IF toks[1] \in DOMAIN v THEN Learn(v, next, Tail(toks))
    ELSE Learn((toks[1] :> (IF Counter = "size" THEN Cardinality(DOMAIN v) ELSE next)) @@ v, next + 1, Tail(toks))

\* the words of the text; an empty text is the empty word if empty texts are handled
Split(text, allow) == IF allow /\ text = <<>> THEN <<0>> ELSE text
Doc(text, mode, allow, v, w, next) ==
    LET t == Split(text, allow)
        toks == TokensOf(t, mode, v, w, Stop, Tok)
        lr == IF mode = "on" THEN Learn(v, next, toks) ELSE <<v, next>>
        out == IF toks = <<>> /\ allow /\ 0 \in DOMAIN lr[1] THEN <<0>> ELSE toks
    IN  [V |-> lr[1], next |-> lr[2], W |-> WordsAfter(t, mode, v, w, Stop, Tok),
         ids |-> [i \in DOMAIN out |-> lr[1][out[i]]], toks |-> out]

ModeNow(m) == IF m = "if_empty" THEN (IF W = {} THEN "on" ELSE "off") ELSE m

Tokenize(text, m, allow) ==
    LET mode == ModeNow(m)
        v0 == AddEmpty(V, W, mode, allow)
        d == Doc(text, mode, allow, v0, IF mode = "on" /\ allow THEN W \cup {0} ELSE W, Cardinality(DOMAIN v0))
    IN  /\ V' = d.V /\ W' = d.W /\ last' = [ids |-> d.ids, toks |-> d.toks]
        /\ Log([op |-> "tokenize", mode |-> m, allow |-> allow])
        /\ UNCHANGED <<streams, saved>>
Open(m, allow) ==
    /\ Len(streams) < MaxStreams
    /\ streams' = Append(streams, [mode |-> ModeNow(m), allow |-> allow, begun |-> FALSE, next |-> 0])
    /\ Log([op |-> "open", mode |-> m, allow |-> allow])
    /\ UNCHANGED <<V, W, saved, last>>
Advance(s, text) ==
    LET st == streams[s]
        v0 == IF st.begun THEN V ELSE AddEmpty(V, W, st.mode, st.allow)
        w0 == IF ~st.begun /\ st.mode = "on" /\ st.allow THEN W \cup {0} ELSE W
        d == Doc(text, st.mode, st.allow, v0, w0, IF st.begun THEN st.next ELSE Cardinality(DOMAIN v0))
    IN  /\ V' = d.V /\ W' = d.W /\ last' = [ids |-> d.ids, toks |-> d.toks]
        /\ streams' = [streams EXCEPT ![s].begun = TRUE, ![s].next = IF Counter = "captured" THEN d.next ELSE 0]
        /\ Log([op |-> "next", s |-> s])
        /\ UNCHANGED saved
Reset == /\ V' = Empty /\ W' = {} /\ Log([op |-> "reset"])
         /\ last' = [ids |-> <<>>, toks |-> <<>>] /\ UNCHANGED <<streams, saved>>
Save == /\ WithSave /\ saved' = [V |-> V, W |-> W] /\ Log([op |-> "save"]) /\ UNCHANGED <<V, W, streams, last>>
Load == /\ saved # NOTHING /\ V' = saved.V /\ W' = saved.W /\ Log([op |-> "load"])
        /\ last' = [ids |-> <<>>, toks |-> <<>>] /\ UNCHANGED <<streams, saved>>

TextChoice == IF Emit THEN {<<>>} ELSE Texts
Step == \/ \E t \in TextChoice, m \in {"on", "off", "never", "if_empty"}, a \in BOOLEAN : Tokenize(t, m, a)
        \/ \E m \in {"on", "off", "never", "if_empty"}, a \in BOOLEAN : Open(m, a)
        \/ \E s \in DOMAIN streams, t \in TextChoice : Advance(s, t)
        \/ Reset \/ Save \/ Load
Next == /\ Emit => Len(hist) < Depth
        /\ Step
        /\ (Emit /\ Len(hist') = Depth) => PrintT("@@CASE " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

VocabularyCoherent == Coherent(V)
\* decoding the returned IDs gives the tokens
Decodes == /\ Len(last.ids) = Len(last.toks)
           /\ \A i \in DOMAIN last.ids : last.toks[i] \in DOMAIN V /\ V[last.toks[i]] = last.ids[i]
\* a token keeps its ID until reset or load
Stable == [][Keeps(V, V') \/ (V' = Empty /\ W' = {}) \/ (saved # NOTHING /\ V' = saved.V)]_vars
\* known words are in the vocabulary
Known == \A w \in W : Tok(w) \in DOMAIN V
View == <<V, W, streams, saved, last>>
=============================================================================
