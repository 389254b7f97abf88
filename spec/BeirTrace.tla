------------------------------ MODULE BeirTrace -----------------------------
(* Validation of recorded uses of the benchmark data helpers. Identifiers,   *)
(* keys and values are codes; Trace[c].pre lists <<forum, id, merged id>>.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st
vars == <<c, l, st>>
Bad(cond, name) == IF cond THEN {} ELSE {name}
Kinds == {"corpus", "queries", "qrels"}

\* a record is a sequence of <<key, value>> including the key "_id"
ID == Trace[c].keys.id
META == Trace[c].keys.metadata
TITLE == Trace[c].keys.title
NULL == Trace[c].keys.null
IdOf(rec) == LET s == SelectSeq(rec, LAMBDA p : p[1] = ID) IN s[1][2]
Without(rec, k) == {p \in ToSet(rec) : p[1] # k}
\* what a loader makes of a record
Fields(kind, rec) == LET s == {p \in Without(rec, META) : TRUE}
                     IN  IF kind = "corpus" /\ ~\E p \in s : p[1] = TITLE THEN s \cup {<<TITLE, NULL>>} ELSE s
NoId(s) == {p \in s : p[1] # ID}

LoadBad(rows, e) ==
    CASE e.kind = "qrels" /\ e.form = "list" ->
           Bad(e.obs.rows = rows, "not every judgement is returned in file order")
      [] e.kind = "qrels" ->
           Bad({<<r[1], ToSet(r[2])>> : r \in ToSet(e.obs.rows)}
                   = {<<q, {<<r[2], r[3]>> : r \in {x \in ToSet(rows) : x[1] = q}}>> : q \in {r[1] : r \in ToSet(rows)}}
               /\ Cardinality({r[1] : r \in ToSet(e.obs.rows)}) = Len(e.obs.rows),
               "not every judged document of every query is returned with its grade")
      [] e.form = "list" ->
           Bad(Len(e.obs.rows) = Len(rows) /\ \A i \in DOMAIN rows : ToSet(e.obs.rows[i][2]) = Fields(e.kind, rows[i]),
               "not every record is returned in file order")
      [] OTHER ->
           Bad(Len(e.obs.rows) = Len(rows) /\ \A i \in DOMAIN rows :
                   \E j \in DOMAIN e.obs.rows : e.obs.rows[j][1] = IdOf(rows[i]) /\ ToSet(e.obs.rows[j][2]) = NoId(Fields(e.kind, rows[i])),
               "not every record is returned under its identifier")

\* merging
Pre(f, i) == LET s == SelectSeq(Trace[c].pre, LAMBDA p : p[1] = f /\ p[2] = i) IN s[1][3]
Prefixed(kind, f, rec) ==
    IF kind = "qrels" THEN <<Pre(f, rec[1]), Pre(f, rec[2]), rec[3]>>
    ELSE {IF p[1] = ID THEN <<ID, Pre(f, p[2])>> ELSE p : p \in ToSet(rec)}
Merged(kind, forums) == UNION {{Prefixed(kind, forums[i].name, forums[i][kind][j]) : j \in DOMAIN forums[i][kind]} : i \in DOMAIN forums}
Count(kind, forums) == FoldSeq(LAMBDA f, n : n + Len(f[kind]), 0, forums)
Same(kind, forums, rows) ==
    /\ Len(rows) = Count(kind, forums)
    /\ {IF kind = "qrels" THEN rows[i] ELSE ToSet(rows[i]) : i \in DOMAIN rows} = Merged(kind, forums)
MergeBad(e) ==
    Bad(e.obs.ok, "merging failed")
    \cup Bad(\A k \in Kinds : Len(e.obs.after[k]) = 1 /\ Same(k, e.forums, e.obs.after[k][1]),
             "the merged files do not hold every record exactly once under its prefixed identifier")
    \cup Bad(\A k \in Kinds : \A i \in DOMAIN e.obs.crashed[k] : Same(k, e.forums, e.obs.crashed[k][i]),
             "an interrupted merge leaves a file that is taken for a merged one")
    \cup Bad(e.obs.reruns, "merging again after an interruption failed")
    \cup Bad(\A k \in Kinds : \A i \in DOMAIN e.obs.again[k] : Same(k, e.forums, e.obs.again[k][i]),
             "merging again after an interruption gives other files")
    \cup Bad(e.obs.kept, "a finished merge was redone or damaged")

\* the archive of a data set on the server and in the directory
DownloadBad(s, e) ==
    LET fetch == s.zip = 0 \/ e.redownload
    IN  IF fetch /\ e.fault # "no" THEN Bad(~e.obs.ok, "an interrupted download is not reported")
        ELSE Bad(e.obs.ok, "a data set cannot be downloaded or extracted")
             \cup Bad(~e.obs.ok \/ e.obs.path, "not the path of the data set or archive")
             \cup Bad(e.obs.fetched = fetch, "an archive that is there was fetched again, or one that is missing was not")
DownloadNext(s, e) ==
    LET fetch == s.zip = 0 \/ e.redownload
        zip == IF fetch /\ e.fault = "no" THEN s.server ELSE s.zip
    IN  [s EXCEPT !.zip = zip, !.data = IF (fetch /\ e.fault # "no") \/ ~e.unzip THEN @ ELSE zip]

Rows(s, e) == IF e.source = "server" THEN Trace[c].versions[s.data][e.kind] ELSE e.rows
EventBad(s, e) ==
    CASE "crash" \in DOMAIN e.obs -> {"the process died"}
      [] e.op = "load" -> IF e.source = "server" /\ s.data = 0 THEN Bad(~e.obs.ok, "loading a missing file is not reported")
                          ELSE IF ~e.obs.ok THEN {"loading failed"} ELSE LoadBad(Rows(s, e), e)
      [] e.op = "loadmerged" ->
           IF ~e.obs.ok THEN {"loading merged files failed"}
           ELSE Bad(ToSet(e.obs.ids) = UNION {{Pre(e.forums[i].name, IdOf(e.forums[i][e.kind][j])) : j \in DOMAIN e.forums[i][e.kind]} : i \in DOMAIN e.forums},
                    "merged files load with other identifiers")
      [] e.op = "merge" -> MergeBad(e)
      [] e.op = "server" -> {}
      [] e.op = "download" -> DownloadBad(s, e)
      [] e.op = "missing" -> Bad(~e.obs.ok, "a missing file or unknown split is not reported")
      [] OTHER -> {"unknown event"}
EventNext(s, e) ==
    CASE "crash" \in DOMAIN e.obs -> s
      [] e.op = "server" -> [s EXCEPT !.server = e.version]
      [] e.op = "download" -> DownloadNext(s, e)
      [] OTHER -> s

Init == c \in DOMAIN Trace /\ l = 0 /\ st = [server |-> 1, zip |-> 0, data |-> 0]
Next == /\ l < Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l + 1]
               bad == EventBad(st, e)
           IN  /\ bad # {} => PrintT("@@BAD " \o ToJson([c |-> c, l |-> l + 1, bad |-> bad]))
               /\ st' = EventNext(st, e)
        /\ l' = l + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
