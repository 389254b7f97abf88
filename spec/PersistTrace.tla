---------------------------- MODULE PersistTrace ----------------------------
(* Validation of recorded saves. Every save event lists the directory states *)
(* in which the process could have died (between any two file system calls,  *)
(* with any of several prefixes of the file being written, or by an error    *)
(* raised in a file system call), and what loading each of them gave:        *)
(*   loads: <<[ok, part...]>> with the identity of the loaded parts.         *)
(* The state is what a load may legitimately give: the last complete version *)
(* and the versions whose save was begun since.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Functions

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, done, tried
vars == <<c, l, done, tried>>
Bad(cond, name) == IF cond THEN {} ELSE {name}

\* a load which succeeded gives exactly version v (as far as it was asked for)
Matches(e, ld, v) == \A f \in DOMAIN ld.parts : ld.parts[f] = e.versions[v][f]
Allowed(e, ld, vs) == ~ld.ok \/ \E v \in vs : Matches(e, ld, v)
Complete(e, ld, v) == ld.ok /\ Matches(e, ld, v)

Legit == (IF done = 0 THEN {} ELSE {done}) \cup tried
EventBad(e) ==
    LET before == Legit
        during == Legit \cup {e.v}
    IN  Bad(\A i \in DOMAIN e.obs.before : Allowed(e, e.obs.before[i], before), "before the save: not a complete index")
        \cup Bad(tried = {} /\ done # 0 => \A i \in DOMAIN e.obs.before : Complete(e, e.obs.before[i], done),
                 "a completed save cannot be loaded")
        \cup Bad(e.obs.saved, "saving failed")
        \cup Bad(\A i \in DOMAIN e.obs.crashes : \A j \in DOMAIN e.obs.crashes[i].loads :
                     Allowed(e, e.obs.crashes[i].loads[j], during),
                 "an interrupted save loads as a partial or mixed index")
        \cup Bad(\A i \in DOMAIN e.obs.crashes : e.obs.crashes[i].lines,
                 "the line index on disk is used for another corpus")
        \cup Bad(\A i \in DOMAIN e.obs.errors : \A j \in DOMAIN e.obs.errors[i].loads :
                     IF e.obs.errors[i].returned THEN Complete(e, e.obs.errors[i].loads[j], e.v)
                     ELSE Allowed(e, e.obs.errors[i].loads[j], during),
                 "a failed save loads as a partial or mixed index")
        \cup Bad(\A i \in DOMAIN e.obs.after : Complete(e, e.obs.after[i], e.v), "a completed save is not what is loaded")

Init == c \in DOMAIN Trace /\ l = 0 /\ done = 0 /\ tried = {}
Next == /\ l < Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l + 1]
               bad == EventBad(e)
           IN  /\ bad # {} => PrintT("@@BAD " \o ToJson([c |-> c, l |-> l + 1, bad |-> bad]))
               /\ IF e.interrupt THEN done' = done /\ tried' = tried \cup {e.v}
                  ELSE done' = e.v /\ tried' = {}
        /\ l' = l + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
