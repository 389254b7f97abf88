----------------------------- MODULE MCScoring -----------------------------
(* Step model of eager indexing and scoring, checked against the definition *)
(* of the score for every small corpus, query and variant.                  *)
EXTENDS Scoring, TLC
CONSTANTS Toks,        \* tokens of the documents
          Known0,      \* vocabulary tokens that occur in no document
          Unknown,     \* tokens outside of the vocabulary
          MaxDocs, MaxLen, MaxQuery,
          AllParams,   \* all pairs of tf and idf methods and extreme parameters
          BrokenDf0,   \* TRUE: tokens without documents are scored (a defect)
          BrokenMask   \* TRUE: the mask is applied before the shift (a defect)

Std == [method |-> "lucene", idf |-> "lucene", k1 |-> <<3, 2>>, b |-> <<3, 4>>, delta |-> <<1, 2>>]
Params == IF AllParams
          THEN {[Std EXCEPT !.method = m, !.idf = i] : m \in Methods, i \in Methods}
               \cup {x \in {[Std EXCEPT !.method = m, !.k1 = k, !.b = bb, !.delta = <<1, 1>>]
                              : m \in Methods, k \in {<<0, 1>>, <<6, 5>>}, bb \in {<<0, 1>>, <<1, 1>>}} :
                        ~(x.method = "bm25+" /\ x.k1 = <<0, 1>>)}   \* 0/0 by definition
          ELSE {[Std EXCEPT !.method = m, !.idf = m] : m \in Methods}
Docs0 == UNION {[1..n -> Toks] : n \in 0..MaxLen}
Corpora == UNION {[1..n -> Docs0] : n \in 1..MaxDocs}
Weights == {RNum(0), RNum(2)}

VARIABLES p, docs, phase, next, cols, nonocc, query, acc, shift
vars == <<p, docs, phase, next, cols, nonocc, query, acc, shift>>

Vocab == Tokens(docs) \cup Known0

Init == /\ p \in Params
        /\ docs \in Corpora
        /\ phase = "nonocc"
        /\ next = 1
        /\ cols = [t \in {} |-> 0]
        /\ nonocc = [t \in {} |-> Zero]
        /\ query = <<>>
        /\ acc = [d \in DOMAIN docs |-> Zero]
        /\ shift = Zero

\* the scores of absent tokens
BuildNonOcc ==
    /\ phase = "nonocc"
    /\ nonocc' = [t \in Vocab |-> IF BrokenDf0 /\ t \in Known0 /\ p.method \in Shifted
                                      THEN LnTimes(<<3, 1>>, RNum(1))
                                      ELSE NonOcc(p, t, docs)]
    /\ cols' = [t \in Vocab |-> [d \in {} |-> Zero]]
    /\ phase' = "entries"
    /\ UNCHANGED <<p, docs, next, query, acc, shift>>

\* document by document, entries for the distinct tokens of the document
AddDocument ==
    /\ phase = "entries"
    /\ IF next > Len(docs) THEN /\ phase' = "query"
                                /\ UNCHANGED <<cols, next>>
       ELSE /\ cols' = [t \in DOMAIN cols |->
                          IF Occurs(t, docs[next])
                          THEN [d \in DOMAIN cols[t] \cup {next} |->
                                  IF d = next THEN Entry(p, t, docs, d) ELSE cols[t][d]]
                          ELSE cols[t]]
            /\ next' = next + 1
            /\ UNCHANGED phase
    /\ UNCHANGED <<p, docs, nonocc, query, acc, shift>>

\* token by token, columns are added to the accumulator
AddQueryToken(t) ==
    /\ phase = "query"
    /\ Len(query) < MaxQuery
    /\ query' = Append(query, t)
    /\ IF t \in Vocab
       THEN /\ acc' = [d \in DOMAIN acc |-> IF d \in DOMAIN cols[t]
                                             THEN Plus(acc[d], cols[t][d]) ELSE acc[d]]
            /\ shift' = Plus(shift, nonocc[t])
       ELSE UNCHANGED <<acc, shift>>
    /\ UNCHANGED <<p, docs, phase, next, cols, nonocc>>

Next == BuildNonOcc \/ AddDocument \/ \E t \in Toks \cup Known0 \cup Unknown : AddQueryToken(t)
Spec == Init /\ [][Next]_vars

Result(d) == Plus(acc[d], shift)
Masked(w, d) == IF BrokenMask THEN Plus(Scale(w, acc[d]), shift) ELSE Scale(w, Result(d))

EagerEqualsDefinition ==
    phase = "query" => \A d \in DOMAIN docs : Result(d) = Score(p, query, docs, d)
MaskMultipliesFinalScore ==
    phase = "query" => \A d \in DOMAIN docs, w \in Weights :
        Masked(w, d) = Scale(w, Score(p, query, docs, d))
\* the structure handed to the harness describes the same score
TermsDescribeScore ==
    phase = "query" =>
        LET T == ScoreTerms(query, docs)
        IN  /\ T.n = Len(docs)
            /\ \A d \in DOMAIN docs :
                 FoldLeft(LAMBDA a, x :
                            Plus(a, LnTimes(F!IdfArg(p.idf, RNum(x.df), RNum(T.n)),
                                            IF x.tf[d] = 0 THEN AbsentTfc(p, docs)
                                            ELSE F!Tfc(p.method, RNum(x.tf[d]), RNum(T.ld[d]),
                                                       RDiv(RNum(T.total), RNum(T.n)),
                                                       p.k1, p.b, p.delta))),
                          Zero, T.terms) = Score(p, query, docs, d)
\* tokens without documents contribute nothing
NeutralTokens ==
    phase = "query" =>
        \A d \in DOMAIN docs :
            Score(p, SelectSeq(query, LAMBDA t : Df(t, docs) > 0), docs, d) = Result(d)
\* renaming tokens changes nothing: the index depends on the corpus only
Swap(t) == IF Cardinality(Toks) < 2 THEN t
           ELSE LET a == CHOOSE x \in Toks : TRUE
                    b == CHOOSE x \in Toks : x # a
                IN  IF t = a THEN b ELSE IF t = b THEN a ELSE t
RenamingInvariant ==
    phase = "query" =>
        LET sdocs == [d \in DOMAIN docs |-> [i \in DOMAIN docs[d] |-> Swap(docs[d][i])]]
            sq == [i \in DOMAIN query |-> Swap(query[i])]
        IN  \A d \in DOMAIN docs : Score(p, sq, sdocs, d) = Result(d)
=============================================================================
