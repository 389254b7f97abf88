----------------------------- MODULE JsonlTrace -----------------------------
(* Validation of recorded histories of JSONL corpora.                        *)
EXTENDS Jsonl, TLC, Json, IOUtils, Functions

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, files, objs
vars == <<c, l, files, objs>>
Bad(cond, name) == IF cond THEN {} ELSE {name}

\* entry codes; 0 is a line which is no JSON text
CodesOf(o) == files[objs[o]].codes
Expect(o, x) ==
    LET p == Positions(x, Len(CodesOf(o)))
    IN  IF p.refused \/ \E j \in DOMAIN p.pos : CodesOf(o)[p.pos[j] + 1] = 0 THEN [ok |-> FALSE, flat |-> <<>>]
        ELSE [ok |-> TRUE, flat |-> [j \in DOMAIN p.pos |-> CodesOf(o)[p.pos[j] + 1]]]
Right(o, x, r) ==
    LET e == Expect(o, x)
    IN  /\ r.ok = e.ok
        /\ r.ok => r.flat = e.flat /\ r.form = x.form /\ (x.form = "array" => r.shape = x.shape)

EventBad(e) ==
    CASE e.op = "write" -> {}
      [] e.op = "open" -> Bad(e.obs.ok, "a corpus file cannot be opened")
                          \cup (IF e.obs.ok THEN Bad(e.obs.len = Len(files[e.path].codes), "not one entry per line") ELSE {})
      [] e.op \in {"close", "reload"} -> Bad(e.obs.ok, "operation failed: " \o e.op)
      [] e.op = "len" -> Bad(e.obs.ok /\ e.obs.len = Len(CodesOf(e.o)), "not one entry per line")
      [] e.op = "get" -> LET x == e.expr
                         IN  IF Right(e.o, x, e.obs) THEN {}
                             ELSE IF ~Expect(e.o, x).ok THEN {"a request out of range was answered"}
                             ELSE IF ~e.obs.ok THEN {"a valid request was refused"}
                             ELSE {"not the requested lines in the requested arrangement"}
      [] e.op = "offsets" -> Bad(e.obs.ok /\ e.obs.pos = Offsets(files[e.path].lens), "wrong offsets of the lines")
                             \cup Bad(e.obs.ok /\ e.obs.lines, "not the lines at the offsets")
                             \cup Bad(e.obs.ok /\ e.obs.same, "a stored offset index is not what was stored")
      [] e.op = "concurrent" ->
             Bad(\A i \in DOMAIN e.obs.outcomes : \A t \in DOMAIN e.reads : \A j \in DOMAIN e.reads[t] :
                     Right(e.o, e.reads[t][j], e.obs.outcomes[i][t][j]),
                 "a concurrent read did not return the entry it asked for")
      [] OTHER -> {"unknown event"}

Init == c \in DOMAIN Trace /\ l = 0 /\ files = <<>> /\ objs = <<>>
Next == /\ l < Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l + 1]
               bad == EventBad(e)
           IN  /\ bad # {} => PrintT("@@BAD " \o ToJson([c |-> c, l |-> l + 1, bad |-> bad]))
               /\ files' = IF e.op = "write" THEN (e.path :> [codes |-> e.codes, lens |-> e.lens]) @@ files ELSE files
               /\ objs' = IF e.op = "open" THEN (e.o :> e.path) @@ objs ELSE objs
        /\ l' = l + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
