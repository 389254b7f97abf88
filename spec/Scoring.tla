------------------------------ MODULE Scoring ------------------------------
(* What a score is, and the eager sparse representation that computes it.    *)
EXTENDS Corpus, Rat

F == INSTANCE Formula WITH Num <- RNum, Add <- RAdd, Sub <- RSub, Mul <- RMul,
                           Div <- RDiv, Max2 <- RMax

(***************************************************************************)
(* Exact scores: linear combinations of logarithms of rationals,           *)
(* represented as functions from the arguments of the logarithms to the    *)
(* (non-zero) rational coefficients.                                       *)
(***************************************************************************)
Zero == [x \in {} |-> RNum(0)]
Trim(s) == [x \in {y \in DOMAIN s : s[y] # RNum(0) /\ y # RNum(1)} |-> s[x]]
Coef(s, x) == IF x \in DOMAIN s THEN s[x] ELSE RNum(0)
Plus(s, u) == Trim([x \in DOMAIN s \cup DOMAIN u |-> RAdd(Coef(s, x), Coef(u, x))])
LnTimes(arg, c) == Trim([x \in {arg} |-> c])
Scale(w, s) == Trim([x \in DOMAIN s |-> RMul(w, s[x])])

(***************************************************************************)
(* The definition: score of a query for document d.                        *)
(* p = [method, idf, k1, b, delta].                                        *)
(***************************************************************************)
LAvg(docs) == RDiv(RNum(TotalLen(docs)), RNum(Len(docs)))
IdfOf(p, t, docs) == F!IdfArg(p.idf, RNum(Df(t, docs)), RNum(Len(docs)))
TfcOf(p, tf, ld, docs) ==
    F!Tfc(p.method, RNum(tf), ld, LAvg(docs), p.k1, p.b, p.delta)

\* For an absent token the length of the document does not matter: the component is
\* zero, or for the shifted variants that of a document of average length (the length
\* cancels out, but the quotients may be 0/0).
AbsentTfc(p, docs) == IF p.method \in Shifted THEN TfcOf(p, 0, LAvg(docs), docs) ELSE RNum(0)

TokenScore(p, t, docs, d) ==
    IF Df(t, docs) = 0 THEN Zero     \* unknown, or known but in no document
    ELSE LnTimes(IdfOf(p, t, docs),
                 IF Occurs(t, docs[d])
                 THEN TfcOf(p, Tf(t, docs[d]), RNum(Len(docs[d])), docs)
                 ELSE AbsentTfc(p, docs))

Score(p, q, docs, d) ==
    FoldLeft(LAMBDA acc, t : Plus(acc, TokenScore(p, t, docs, d)), Zero, q)

(***************************************************************************)
(* The eager index: per token a column with an entry for each document     *)
(* containing the token; for the shifted variants the score of an absent   *)
(* token (computed for a document of average length) is subtracted from    *)
(* the entries and added back once per query token.                        *)
(***************************************************************************)
NonOcc(p, t, docs) ==
    IF p.method \in Shifted /\ Df(t, docs) > 0
    THEN LnTimes(IdfOf(p, t, docs), TfcOf(p, 0, LAvg(docs), docs))
    ELSE Zero
Entry(p, t, docs, d) ==
    Plus(LnTimes(IdfOf(p, t, docs), TfcOf(p, Tf(t, docs[d]), RNum(Len(docs[d])), docs)),
         Scale(RNum(-1), NonOcc(p, t, docs)))

(***************************************************************************)
(* Floating point: the structure of a score, to be evaluated outside TLC.  *)
(***************************************************************************)
Add3(x, y) == <<"+", x, y>>
Sub3(x, y) == <<"-", x, y>>
Mul3(x, y) == <<"*", x, y>>
Div3(x, y) == <<"/", x, y>>
Max3(x, y) == <<"max", x, y>>
Num3(n) == <<"num", n>>
Sym(s) == <<"sym", s>>
Ast == INSTANCE Formula WITH Num <- Num3, Add <- Add3, Sub <- Sub3, Mul <- Mul3,
                             Div <- Div3, Max2 <- Max3

\* symbols: tf, ld, df, n (documents), total (tokens), k1, b, delta
FormulaTree(method, idf) ==
    LET lavg == Div3(Sym("total"), Sym("n"))
        tfc(tf, ld) == Ast!Tfc(method, tf, ld, lavg, Sym("k1"), Sym("b"), Sym("delta"))
    IN  [idf |-> <<"ln", Ast!IdfArg(idf, Sym("df"), Sym("n"))>>,
         tfc |-> tfc(Sym("tf"), Sym("ld")),
         absent |-> IF method \in Shifted THEN tfc(Num3(0), lavg) ELSE Num3(0)]

\* the terms of the score of query q: Ln(idf) * tfc, per known token occurrence
ScoreTerms(q, docs) ==
    LET known == SelectSeq(q, LAMBDA t : Df(t, docs) > 0)
        D == DOMAIN docs
    IN  [n |-> Len(docs), total |-> TotalLen(docs), ld |-> [d \in D |-> Len(docs[d])],
         terms |-> [i \in DOMAIN known |->
                      [df |-> Df(known[i], docs),
                       tf |-> [d \in D |-> Tf(known[i], docs[d])]]]]
=============================================================================
