------------------------------ MODULE TopKTrace ------------------------------
(* Recorded calls of the selection functions, judged by module TopK. The     *)
(* scores are given as order-isomorphic integers (rank, exact).              *)
EXTENDS TopK, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
Bad(cond, name) == IF cond THEN {} ELSE {name}
EventBad(e) ==
    IF ~e.valid THEN Bad(~e.obs.ok, "an invalid selection was answered")
    ELSE IF ~e.obs.ok THEN {"a valid selection failed"}
    ELSE Bad(e.obs.n = e.k, "not k scores")
         \cup Bad(~e.obs.mutated, "selection changed the scores")
         \cup IF ~IsSelection(e.obs.pos, Len(e.rank), e.k) THEN {"not a selection of k distinct positions"}
              ELSE Bad(\A j \in DOMAIN e.obs.pos : e.obs.ord[j] = e.rank[e.obs.pos[j] + 1],
                       "a score is not the score of its position")
                   \cup Bad(NoBetterOmitted(e.obs.pos, e.rank), "a higher score is omitted")
                   \cup Bad(e.sorted => NonIncreasing(e.obs.ord), "not in non-increasing order")
Init == c \in DOMAIN Trace /\ l = 0
Next == /\ l < Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l + 1]
               bad == EventBad(e)
           IN  bad # {} => PrintT("@@BAD " \o ToJson([c |-> c, l |-> l + 1, bad |-> bad]))
        /\ l' = l + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
