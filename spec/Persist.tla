------------------------------- MODULE Persist -------------------------------
(* Saving an index as a sequence of file system steps, with crashes at every *)
(* step, torn files, and loads at any time.                                  *)
(*                                                                           *)
(* A save of version v opens (and truncates), fills and closes one file      *)
(* after the other; the process may die in between, leaving a file empty or  *)
(* partly written. Whatever is on disk then, loading it must fail or give    *)
(* one complete version.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Versions,    \* version numbers, saved in any order
          NeedsNnoc,   \* the versions whose method needs the non-occurrence array
          MaxSaves,
          Order        \* "good", "paramsLast" (old parameters stay), "paramsFirst"

Arrays == <<"data", "indices", "indptr">>
Files == {"data", "indices", "indptr", "nnoc", "vocab", "corpus", "mmindex", "params"}
Required(v) == {"data", "indices", "indptr", "vocab", "params"} \cup (IF v \in NeedsNnoc THEN {"nnoc"} ELSE {})

Absent == [st |-> "absent", v |-> 0]
Part(v) == [st |-> "part", v |-> v]
Full(v) == [st |-> "full", v |-> v]

U(f) == <<"unlink", f>>
W(f) == <<"write", f>>
Program(v) ==
    LET arrays == <<W("data"), W("indices"), W("indptr")>> \o (IF v \in NeedsNnoc THEN <<W("nnoc")>> ELSE <<>>)
        rest == <<W("vocab"), U("mmindex"), U("corpus"), W("corpus"), W("mmindex")>>
        clear == <<U("data"), U("indices"), U("indptr"), U("nnoc")>>
    IN  CASE Order = "good" -> <<U("params")>> \o clear \o arrays \o rest \o <<W("params")>>
          [] Order = "paramsLast" -> clear \o arrays \o rest \o <<W("params")>>
          [] Order = "paramsFirst" -> <<U("params")>> \o clear \o <<W("params")>> \o arrays \o rest

VARIABLES disk, cur, pc, half, done, tried, saves
vars == <<disk, cur, pc, half, done, tried, saves>>

Init == /\ disk = [f \in Files |-> Absent]
        /\ cur = 0 /\ pc = 1 /\ half = FALSE
        /\ done = 0          \* the last version completely saved
        /\ tried = {}        \* versions whose save was begun after it
        /\ saves = 0

Begin(v) == /\ cur = 0 /\ saves < MaxSaves
            /\ cur' = v /\ pc' = 1 /\ half' = FALSE /\ saves' = saves + 1
            /\ tried' = tried \cup {v}
            /\ UNCHANGED <<disk, done>>
Step == /\ cur # 0 /\ pc <= Len(Program(cur))
        /\ LET s == Program(cur)[pc]
           IN  IF s[1] = "unlink"
               THEN /\ disk' = [disk EXCEPT ![s[2]] = Absent]
                    /\ pc' = pc + 1 /\ UNCHANGED half
               ELSE IF ~half
               THEN /\ disk' = [disk EXCEPT ![s[2]] = Part(cur)]
                    /\ half' = TRUE /\ UNCHANGED pc
               ELSE /\ disk' = [disk EXCEPT ![s[2]] = Full(cur)]
                    /\ half' = FALSE /\ pc' = pc + 1
        /\ UNCHANGED <<cur, done, tried, saves>>
Finish == /\ cur # 0 /\ pc > Len(Program(cur))
          /\ done' = cur /\ tried' = {} /\ cur' = 0 /\ pc' = 1
          /\ UNCHANGED <<disk, half, saves>>
Crash == /\ cur # 0
         /\ cur' = 0 /\ pc' = 1 /\ half' = FALSE
         /\ UNCHANGED <<disk, done, tried, saves>>
Next == (\E v \in Versions : Begin(v)) \/ Step \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars

\* What loading the directory gives: an error, or the versions of the parts of the index
Fails(d) == \/ d["params"].st # "full"
            \/ \E f \in Required(d["params"].v) : d[f].st # "full"
            \/ d["corpus"].st = "part" \/ d["mmindex"].st = "part"
Parts(d) == {d[f].v : f \in Required(d["params"].v)} \cup (IF d["corpus"].st = "full" THEN {d["corpus"].v} ELSE {})

\* an interrupted save is never mistaken for a complete index
Recovery == Fails(disk) \/ \E v \in {done} \cup tried : v # 0 /\ Parts(disk) = {v}
\* a completed save can be loaded
Complete == (cur = 0 /\ tried = {} /\ done # 0) => ~Fails(disk) /\ Parts(disk) = {done}
\* the line index on disk belongs to the corpus on disk
Aligned == disk["mmindex"].st = "full" => disk["corpus"].st = "full" /\ disk["corpus"].v = disk["mmindex"].v
=============================================================================
