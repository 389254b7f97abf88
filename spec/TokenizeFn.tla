----------------------------- MODULE TokenizeFn -----------------------------
(* One-shot tokenization. A text is a sequence of characters. Splitting by a *)
(* pattern "runs of at least min (and at most max) characters of a class";   *)
(* the default pattern is runs of at least two word characters.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* scanning: cur is the run being read, chunks of max characters (0: no limit); a rest shorter than
\* min is skipped, as the search for the next match would skip it
RECURSIVE Scan(_, _, _, _, _)
Scan(text, In(_), min, max, cur) ==
    LET done == IF Len(cur) >= min THEN <<cur>> ELSE <<>>
    IN  IF text = <<>> THEN done
        ELSE IF ~In(text[1]) THEN done \o Scan(Tail(text), In, min, max, <<>>)
        ELSE IF max > 0 /\ Len(cur) = max THEN done \o Scan(Tail(text), In, min, max, <<text[1]>>)
        ELSE Scan(Tail(text), In, min, max, Append(cur, text[1]))
Runs(text, In(_), min, max) == Scan(text, In, min, max, <<>>)

\* the same, declaratively (without limit): the maximal intervals of characters of the class
Maximal(text, In(_), min) ==
    {p \in (1..Len(text)) \X (1..Len(text)) :
        /\ p[2] - p[1] + 1 >= min /\ p[1] <= p[2]
        /\ \A i \in p[1]..p[2] : In(text[i])
        /\ (p[1] = 1 \/ ~In(text[p[1] - 1])) /\ (p[2] = Len(text) \/ ~In(text[p[2] + 1]))}
Declared(text, In(_), min) ==
    LET ps == SetToSortSeq(Maximal(text, In, min), LAMBDA a, b : a[1] < b[1])
    IN  [i \in DOMAIN ps |-> SubSeq(text, ps[i][1], ps[i][2])]

\* the tokens of a text
Tokens(text, In(_), min, max, stop, Stem(_)) ==
    LET ws == SelectSeq(Runs(text, In, min, max), LAMBDA w : w \notin stop)
    IN  [i \in DOMAIN ws |-> Stem(ws[i])]
=============================================================================
