--------------------------- MODULE LoadSafetyTrace ---------------------------
(* Recorded histories of tampering and loading, judged by module LoadSafety. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, t
vars == <<c, l, t>>
L == INSTANCE LoadSafety WITH Reader <- "guarded", Emit <- FALSE, Depth <- 0, MaxTampered <- 10, tampered <- t, phase <- "idle",
                              req <- 0, todo <- {}, ran <- FALSE, hist <- <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}
EventBad(s, needs, e) ==
    IF "crash" \in DOMAIN e.obs THEN {"the process died"}
    ELSE CASE e.op = "load" ->
               Bad(e.obs.ran => L!MayRun(s, e.r, needs), "loading ran code from a file although pickling was not allowed")
               \cup Bad(L!MustRefuse(s, e.r, needs) => ~e.obs.ok, "loading a directory with a pickled file was not refused")
               \cup Bad(L!MustAnswer(s, e.r, needs) => e.obs.ok /\ e.obs.same, "a directory whose files were not touched is not loaded as saved")
           [] e.op = "save" -> Bad(e.obs.ok, "an index cannot be saved") \cup Bad(~e.obs.ran, "saving ran code")
                               \cup Bad(~e.obs.ok \/ e.obs.plain, "an array was saved as a pickle")
           [] OTHER -> {}
EventNext(s, e) ==
    IF "crash" \in DOMAIN e.obs THEN s
    ELSE CASE e.op = "tamper" -> s \cup {e.f}
      [] e.op = "save" /\ e.obs.ok -> s \ (IF e.corpus THEN L!Files ELSE L!Files \ {"corpus", "mmindex"})
      [] OTHER -> s
Init == c \in DOMAIN Trace /\ l = 0 /\ t = {}
Next == /\ l < Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l + 1]
               bad == EventBad(t, Trace[c].needs, e)
           IN  /\ t' = EventNext(t, e)
               /\ (bad # {} => PrintT("@@BAD " \o ToJson([c |-> c, l |-> l + 1, bad |-> bad])))
        /\ l' = l + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
