------------------------------ MODULE Formula ------------------------------
(* The documented BM25 formulas (Kamphuis et al., ECIR 2020), written once   *)
(* over an abstract arithmetic. Instantiated with exact rationals (module    *)
(* Rat) in the exhaustive models, and with expression trees in the trace     *)
(* specifications, where the harness evaluates the trees in floating point.  *)
(*                                                                           *)
(* The idf is always the logarithm of the argument IdfArg; the score of a    *)
(* token in a document is Ln(IdfArg) * Tfc, the score of a query the sum     *)
(* over its token occurrences.                                               *)
CONSTANTS Num(_), Add(_, _), Sub(_, _), Mul(_, _), Div(_, _), Max2(_, _)

One == Num(1)
Half == Div(Num(1), Num(2))

\* argument of the logarithm; df documents out of N contain the token
IdfArg(idf, df, N) ==
    CASE idf = "robertson" -> Max2(One, Div(Add(Sub(N, df), Half), Add(df, Half)))
      [] idf = "lucene"    -> Add(One, Div(Add(Sub(N, df), Half), Add(df, Half)))
      [] idf = "atire"     -> Div(N, df)
      [] idf = "bm25l"     -> Div(Add(N, One), Add(df, Half))
      [] idf = "bm25+"     -> Div(Add(N, One), df)

\* 1 - b + b * l_d / l_avg
LenNorm(ld, lavg, b) == Add(Sub(One, b), Div(Mul(b, ld), lavg))

Tfc(method, tf, ld, lavg, k1, b, delta) ==
    LET L == LenNorm(ld, lavg, b)
        c == Div(tf, L)
    IN  CASE method \in {"robertson", "lucene"} -> Div(tf, Add(Mul(k1, L), tf))
          [] method = "atire" -> Div(Mul(tf, Add(k1, One)), Add(tf, Mul(k1, L)))
          [] method = "bm25l" -> Div(Mul(Add(k1, One), Add(c, delta)),
                                     Add(Add(k1, c), delta))
          [] method = "bm25+" -> Add(Div(Mul(Add(k1, One), tf), Add(Mul(k1, L), tf)), delta)
=============================================================================
