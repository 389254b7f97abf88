------------------------------ MODULE Publish -------------------------------
(* Merging the sub-forums of a data set into three files, with crashes at    *)
(* every step and repeated runs. Source records are numbered; files are      *)
(* sequences of records. Switch: InPlace, whether the merged file is written *)
(* directly (the finished file is recognized by its existence).              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS InPlace, Forums, PerForum, Runs

Files == <<"corpus", "queries", "qrels">>
Records == UNION {{<<f, i>> : i \in 1..PerForum} : f \in 1..Forums}
ABSENT == << <<0, 0>> >>

VARIABLES disk,      \* file name -> sequence of records or ABSENT
          tmp,       \* the temporary file, or ABSENT
          at,        \* index of the file being merged; 0: not running
          todo,      \* records still to be written
          opened,    \* the file is being written
          runs, finished
vars == <<disk, tmp, at, todo, opened, runs, finished>>

Init == /\ disk = [f \in ToSet(Files) |-> ABSENT] /\ tmp = ABSENT
        /\ at = 0 /\ todo = {} /\ opened = FALSE /\ runs = 0 /\ finished = FALSE
Begin == at = 0 /\ runs < Runs /\ at' = 1 /\ runs' = runs + 1 /\ todo' = {} /\ opened' = FALSE /\ UNCHANGED <<disk, tmp, finished>>
Running == at > 0 /\ at <= Len(Files)
F == Files[at]
Writing == IF InPlace THEN disk[F] ELSE tmp
\* the file exists: skip it; otherwise create it
Look == /\ Running /\ ~opened
        /\ IF disk[F] # ABSENT THEN at' = at + 1 /\ UNCHANGED <<disk, tmp, todo, opened>>
           ELSE /\ todo' = Records /\ at' = at /\ opened' = TRUE
                /\ IF InPlace THEN disk' = [disk EXCEPT ![F] = <<>>] /\ tmp' = tmp ELSE tmp' = <<>> /\ disk' = disk
        /\ UNCHANGED <<runs, finished>>
\* records come forum by forum in file order, the forums in any order
Next1(r) == /\ \A q \in todo : q[1] = r[1] => r[2] <= q[2]
            /\ LET w == Writing IN IF w = <<>> THEN TRUE ELSE w[Len(w)][1] = r[1] \/ ~\E q \in todo : q[1] = w[Len(w)][1]
Write(r) == /\ Running /\ r \in todo /\ Next1(r)
            /\ IF InPlace THEN disk' = [disk EXCEPT ![F] = Append(@, r)] /\ tmp' = tmp
               ELSE tmp' = Append(tmp, r) /\ disk' = disk
            /\ todo' = todo \ {r}
            /\ at' = IF InPlace /\ todo' = {} THEN at + 1 ELSE at
            /\ opened' = ~(InPlace /\ todo' = {})
            /\ UNCHANGED <<runs, finished>>
Rename == /\ Running /\ ~InPlace /\ opened /\ todo = {}
          /\ disk' = [disk EXCEPT ![F] = tmp] /\ tmp' = ABSENT /\ at' = at + 1 /\ opened' = FALSE /\ UNCHANGED <<todo, runs, finished>>
End == /\ at > Len(Files) /\ at' = 0 /\ finished' = TRUE /\ UNCHANGED <<disk, tmp, todo, opened, runs>>
Crash == at > 0 /\ at' = 0 /\ todo' = {} /\ opened' = FALSE /\ UNCHANGED <<disk, tmp, runs, finished>>
Next == Begin \/ Look \/ (\E r \in Records : Write(r)) \/ Rename \/ End \/ Crash
Spec == Init /\ [][Next]_vars

Whole(s) == Len(s) = Cardinality(Records) /\ ToSet(s) = Records
\* what a reader finds is whole: every record exactly once
Complete == \A f \in ToSet(Files) : disk[f] = ABSENT \/ (Running /\ InPlace /\ f = F /\ todo # {}) \/ Whole(disk[f])
\* nobody takes an unfinished file for a merged one, and after a finished run everything is there
CompleteAtRest == at = 0 => \A f \in ToSet(Files) : disk[f] = ABSENT \/ Whole(disk[f])
Finished == finished => \A f \in ToSet(Files) : disk[f] # ABSENT
\* a merged file is never touched again
Final == [][\A f \in ToSet(Files) : (disk[f] # ABSENT /\ Whole(disk[f])) => disk'[f] = disk[f]]_vars
=============================================================================
