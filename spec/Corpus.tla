------------------------------- MODULE Corpus -------------------------------
(* Counting: documents and queries are sequences of tokens.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Methods == {"robertson", "lucene", "atire", "bm25l", "bm25+"}
Shifted == {"bm25l", "bm25+"}      \* variants that also score absent tokens

Tf(t, doc) == Cardinality({i \in DOMAIN doc : doc[i] = t})
Occurs(t, doc) == \E i \in DOMAIN doc : doc[i] = t
Df(t, docs) == Cardinality({d \in DOMAIN docs : Occurs(t, docs[d])})
Tokens(docs) == UNION {{docs[d][i] : i \in DOMAIN docs[d]} : d \in DOMAIN docs}
TotalLen(docs) == FoldLeft(LAMBDA acc, doc : acc + Len(doc), 0, docs)
=============================================================================
