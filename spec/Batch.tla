-------------------------------- MODULE Batch --------------------------------
(* A retrieval over a batch of queries by a pool of worker threads: queries  *)
(* are handed to the workers in order, in chunks; every worker computes the  *)
(* answers of its chunk one after the other, in scratch memory, and writes   *)
(* them into the result. Every interleaving must give every row its own      *)
(* query's answer. The completion orders are replayed into the real code     *)
(* (Emit).                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxQueries, MaxWorkers, MaxChunk,
          CompletionOrder,   \* broken variant: rows in the order of completion
          SharedScratch,     \* broken variant: one scratch array for all workers
          Emit

VARIABLES n, w, ch,          \* queries, workers, chunk size
          next,              \* first query not handed out
          work,              \* worker -> queries still to do (first one in progress)
          scored,            \* worker -> has it scored its first query
          scratch,           \* worker -> query whose scores the scratch memory holds, or 0
          res,               \* rows: 0 or the query whose answer is in the row
          done               \* queries in the order of completion
vars == <<n, w, ch, next, work, scored, scratch, res, done>>

Slot(p) == IF SharedScratch THEN 1 ELSE p
Init == /\ n \in 1..MaxQueries /\ w \in 1..MaxWorkers /\ ch \in 1..MaxChunk
        /\ next = 1
        /\ work = [p \in 1..MaxWorkers |-> <<>>]
        /\ scratch = [p \in 1..MaxWorkers |-> 0]
        /\ scored = [p \in 1..MaxWorkers |-> FALSE]
        /\ res = [i \in 1..n |-> 0]
        /\ done = <<>>
Take(p) == /\ p <= w /\ work[p] = <<>> /\ next <= n
           /\ LET m == IF next + ch - 1 <= n THEN ch ELSE n - next + 1
              IN  /\ work' = [work EXCEPT ![p] = [i \in 1..m |-> next + i - 1]]
                  /\ next' = next + m
           /\ UNCHANGED <<n, w, ch, scored, scratch, res, done>>
ScoreQuery(p) == /\ work[p] # <<>> /\ ~scored[p]
                 /\ scratch' = [scratch EXCEPT ![Slot(p)] = Head(work[p])]
                 /\ scored' = [scored EXCEPT ![p] = TRUE]
                 /\ UNCHANGED <<n, w, ch, next, work, res, done>>
Finish(p) == /\ scored[p]
             /\ res' = [res EXCEPT ![IF CompletionOrder THEN Len(done) + 1 ELSE Head(work[p])] = scratch[Slot(p)]]
             /\ done' = Append(done, Head(work[p]))
             /\ work' = [work EXCEPT ![p] = Tail(@)]
             /\ scored' = [scored EXCEPT ![p] = FALSE]
             /\ (Emit /\ Len(done') = n) => PrintT("@@CASE " \o ToJson([w |-> w, ch |-> ch, order |-> done']))
             /\ UNCHANGED <<n, w, ch, next, scratch>>
Next == \E p \in 1..MaxWorkers : Take(p) \/ ScoreQuery(p) \/ Finish(p)
Spec == Init /\ [][Next]_vars

RowsOfOwnQuery == Len(done) = n => \A i \in 1..n : res[i] = i
NoForeignRow == \A i \in 1..n : res[i] \in {0, i}
EachOnce == \A i, j \in DOMAIN done : i # j => done[i] # done[j]
=============================================================================
