----------------------------- MODULE JsonlReaders -----------------------------
(* Threads reading entries of one memory-mapped corpus. With a shared cursor *)
(* a read is "seek" then "read on"; without, the bounds of the line are      *)
(* computed in variables of the thread. All interleavings of the steps.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, Lines, ReadsPer, SharedCursor, Emit
VARIABLES cursor, pc, want, start, got, left, sched
vars == <<cursor, pc, want, start, got, left, sched>>

Init == /\ cursor = 0
        /\ pc = [t \in Threads |-> "idle"]
        /\ want = [t \in Threads |-> 0] /\ start = [t \in Threads |-> 0]
        /\ got = [t \in Threads |-> 0] /\ left = [t \in Threads |-> ReadsPer]
        /\ sched = <<>>
Sched(t) == sched' = IF Emit THEN Append(sched, t) ELSE sched
Ask(t) == /\ pc[t] = "idle" /\ left[t] > 0
          /\ (IF Emit THEN want' = [want EXCEPT ![t] = 1]
              ELSE \E i \in Lines : want' = [want EXCEPT ![t] = i])
          /\ pc' = [pc EXCEPT ![t] = "seek"] /\ left' = [left EXCEPT ![t] = @ - 1]
          /\ UNCHANGED <<cursor, start, got>> /\ Sched(t)
Seek(t) == /\ pc[t] = "seek"
           /\ IF SharedCursor THEN cursor' = want[t] /\ UNCHANGED start
              ELSE start' = [start EXCEPT ![t] = want[t]] /\ UNCHANGED cursor
           /\ pc' = [pc EXCEPT ![t] = "read"] /\ UNCHANGED <<want, got, left>> /\ Sched(t)
Read(t) == /\ pc[t] = "read"
           /\ got' = [got EXCEPT ![t] = IF SharedCursor THEN cursor ELSE start[t]]
           /\ cursor' = IF SharedCursor THEN cursor + 1 ELSE cursor
           /\ pc' = [pc EXCEPT ![t] = "got"] /\ UNCHANGED <<want, start, left>> /\ Sched(t)
Return(t) == /\ pc[t] = "got" /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ UNCHANGED <<cursor, want, start, got, left>> /\ Sched(t)
AllDone == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Next == /\ \E t \in Threads : Ask(t) \/ Seek(t) \/ Read(t) \/ Return(t)
        /\ (Emit /\ \A t \in Threads : pc'[t] = "idle" /\ left'[t] = 0) => PrintT("@@CASE " \o ToJson(sched'))
Spec == Init /\ [][Next]_vars

\* every read gives the line it asked for
RightLine == \A t \in Threads : pc[t] = "got" => got[t] = want[t]
=============================================================================
