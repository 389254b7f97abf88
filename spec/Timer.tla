-------------------------------- MODULE Timer -------------------------------
(* Timers: every name is not started, running, paused or stopped. The        *)
(* implementation accumulates `elapsed` and remembers the time `last` of the *)
(* latest start or resume; an observer `truth` counts the time that passes   *)
(* while a timer is running. Rule = "pop" forgets `last` at a pause, "keep"  *)
(* does not (then the time before the pause, and the pause, count twice);    *)
(* "overwrite" sets `last` when a running timer is resumed (then the time    *)
(* until then is lost). Calls may come in any order: pausing a timer that    *)
(* does not run, stopping it again, resuming it while it runs or after a     *)
(* stop.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, MaxTime, Rule, Emit, Depth
VARIABLES now, state, elapsed, last, truth, hist
vars == <<now, state, elapsed, last, truth, hist>>
NONE == -1

Init == /\ now = 0 /\ state = [n \in Names |-> "none"] /\ elapsed = [n \in Names |-> 0]
        /\ last = [n \in Names |-> NONE] /\ truth = [n \in Names |-> 0] /\ hist = <<>>
Log(op, n, d) == hist' = IF Emit THEN Append(hist, [op |-> op, n |-> n, d |-> d]) ELSE hist
Since(n) == IF last[n] = NONE THEN 0 ELSE now - last[n]

Tick(d) == /\ now + d <= MaxTime /\ now' = now + d
           /\ truth' = [n \in Names |-> IF state[n] = "running" THEN truth[n] + d ELSE truth[n]]
           /\ Log("tick", 0, d) /\ UNCHANGED <<state, elapsed, last>>
Start(n) == /\ state[n] = "none" /\ state' = [state EXCEPT ![n] = "running"] /\ last' = [last EXCEPT ![n] = now]
            /\ elapsed' = [elapsed EXCEPT ![n] = 0] /\ Log("start", n, 0) /\ UNCHANGED <<now, truth>>
Pause(n) == /\ state[n] # "none" /\ state' = [state EXCEPT ![n] = IF @ = "running" THEN "paused" ELSE @]
            /\ elapsed' = [elapsed EXCEPT ![n] = @ + Since(n)]
            /\ last' = IF Rule = "pop" THEN [last EXCEPT ![n] = NONE] ELSE last
            /\ Log("pause", n, 0) /\ UNCHANGED <<now, truth>>
Resume(n) == /\ state[n] # "none" /\ state' = [state EXCEPT ![n] = "running"]
             /\ last' = [last EXCEPT ![n] = IF @ = NONE \/ Rule = "overwrite" THEN now ELSE @]
             /\ Log("resume", n, 0) /\ UNCHANGED <<now, elapsed, truth>>
Stop(n) == /\ state[n] # "none" /\ state' = [state EXCEPT ![n] = "stopped"]
           /\ elapsed' = [elapsed EXCEPT ![n] = @ + Since(n)] /\ last' = [last EXCEPT ![n] = NONE]
           /\ Log("stop", n, 0) /\ UNCHANGED <<now, truth>>
Step == \/ \E d \in 1..3 : Tick(d)
        \/ \E n \in Names : Start(n) \/ Pause(n) \/ Resume(n) \/ Stop(n)
Next == /\ Emit => Len(hist) < Depth
        /\ Step
        /\ (Emit /\ Len(hist') = Depth) => PrintT("@@CASE " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

\* what is reported for a stopped timer is the time it was running
Exact == \A n \in Names : state[n] = "stopped" => elapsed[n] = truth[n]
Accumulating == \A n \in Names : state[n] \in {"running", "paused"} => elapsed[n] + Since(n) = truth[n]
Final == [][\A n \in Names : state[n] = "stopped" => elapsed'[n] = elapsed[n]]_vars
=============================================================================
