-------------------------------- MODULE Jsonl --------------------------------
(* Random access into JSONL files: what an index expression denotes, and     *)
(* where the lines of a file begin.                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

REFUSED == [refused |-> TRUE, pos |-> <<>>]
Ok(p) == [refused |-> FALSE, pos |-> p]

\* Python's slices: a, b, s are <<>> (left out) or <<value>>
SlicePositions(a, b, s, n) ==
    LET step == IF s = <<>> THEN 1 ELSE s[1]
        fit(v, lo, hi) == IF v < 0 THEN Max2(v + n, lo) ELSE Min2(v, hi)
        start == IF step > 0 THEN (IF a = <<>> THEN 0 ELSE fit(a[1], 0, n))
                 ELSE (IF a = <<>> THEN n - 1 ELSE fit(a[1], -1, n - 1))
        stop == IF step > 0 THEN (IF b = <<>> THEN n ELSE fit(b[1], 0, n))
                ELSE (IF b = <<>> THEN -1 ELSE fit(b[1], -1, n - 1))
        count == IF step > 0 THEN (IF start < stop THEN (stop - start - 1) \div step + 1 ELSE 0)
                 ELSE (IF start > stop THEN (start - stop - 1) \div (-step) + 1 ELSE 0)
    IN  IF step = 0 THEN REFUSED ELSE Ok([j \in 1..count |-> start + (j - 1) * step])

\* positions (0-based) an index expression asks for; negative ones count from the end
Wrap(i, n) == IF i < 0 THEN i + n ELSE i
AllPositions(ids, n) ==
    IF \E j \in DOMAIN ids : ids[j] >= n \/ ids[j] < -n THEN REFUSED
    ELSE Ok([j \in DOMAIN ids |-> Wrap(ids[j], n)])
Positions(x, n) ==
    IF x.kind = "slice" THEN SlicePositions(x.a, x.b, x.s, n) ELSE AllPositions(x.ids, n)

\* byte offsets of lines with the given lengths (terminators included)
Offsets(lens) == [i \in DOMAIN lens |-> FoldLeft(+, 0, SubSeq(lens, 1, i - 1))]
=============================================================================
