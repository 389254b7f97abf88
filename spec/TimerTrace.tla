----------------------------- MODULE TimerTrace -----------------------------
(* Validation of recorded timer histories; times are in ticks of 1/8 second, *)
(* rounded values in 10^-precision seconds.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st
vars == <<c, l, st>>
Bad(cond, name) == IF cond THEN {} ELSE {name}
TICKS == 8
\* reopened: resumed after a stop, and not stopped since (whether it then counts as stopped is not settled)
None == [s |-> "none", acc |-> 0, since |-> 0, resumed |-> FALSE, reopened |-> FALSE]
Of(s, n) == s[n]
At(r, t) == IF r.s = "running" THEN r.acc + t - r.since ELSE r.acc
\* v ticks in units of 10^-p seconds, rounded half to even
RECURSIVE Pow(_)
Pow(p) == IF p = 0 THEN 1 ELSE 10 * Pow(p - 1)
Round(v, p) == LET n == v * Pow(p)
                   q == n \div TICKS
                   r == n % TICKS
               IN  IF 2 * r > TICKS \/ (2 * r = TICKS /\ q % 2 = 1) THEN q + 1 ELSE q
\* the time of a line, in milliseconds; an offset is given in ticks
Shown(v, e) == Round(v, e.precision) * Pow(3 - e.precision) + e.offset * 125
Reopened(s) == {n \in DOMAIN s : s[n].reopened}
Stopped(s) == {n \in DOMAIN s : s[n].s = "stopped"}

EventBad(s, e) ==
    LET r == s[e.n]
    IN  CASE "crash" \in DOMAIN e.obs -> {"the process died"}
          [] e.op = "start" -> IF r.s = "none" THEN Bad(e.obs.ok, "a timer cannot be started")
                               ELSE Bad(~e.obs.ok, "starting a started timer is not refused")
          [] e.op \in {"pause", "resume"} -> Bad(e.obs.ok, "a timer cannot be paused or resumed")
          [] e.op = "stop" ->
               IF r.s = "none" THEN Bad(~e.obs.ok, "stopping an unknown timer is not refused")
               ELSE Bad(e.obs.ok, "a timer cannot be stopped")
                    \cup Bad(~e.obs.ok \/ e.obs.ticks = At(r, e.t), "the time returned by stop is not the time it was running")
          [] e.op = "elapsed" ->
               IF r.reopened THEN {}
               ELSE IF r.s # "stopped" THEN Bad(~e.obs.ok, "reading a timer that is not stopped is not refused")
               ELSE Bad(e.obs.ok, "the time of a stopped timer cannot be read")
                    \cup Bad(~e.obs.ok \/ e.obs.units = Round(r.acc, e.precision), "the elapsed time is not the time it was running")
          [] e.op = "probe" ->
               Bad(e.obs.ok, "a timer cannot be asked for its state")
               \cup Bad(~e.obs.ok \/ \A n \in DOMAIN s : (e.obs.started[n] <=> s[n].s # "none") /\ (s[n].reopened \/ (e.obs.stopped[n] <=> s[n].s = "stopped")),
                        "the state of a timer is wrong")
               \cup Bad(~e.obs.ok \/ \A n \in DOMAIN s : s[n].s = "stopped" \/ s[n].reopened \/ ((e.obs.paused[n] <=> s[n].s = "paused")
                                                        /\ (e.obs.resumed[n] <=> (s[n].s = "running" /\ s[n].resumed))),
                        "a timer does not know whether it is paused")
          [] e.op = "export" ->
               Bad(e.obs.ok, "timers cannot be exported")
               \cup Bad(~e.obs.ok \/ {e.obs.times[i][1] : i \in DOMAIN e.obs.times} = {n \in DOMAIN s : s[n].s # "none"}, "not every started timer is exported under its name")
               \cup Bad(~e.obs.ok \/ \A i \in DOMAIN e.obs.times : e.obs.times[i][1] \in Stopped(s) => e.obs.times[i][2] = s[e.obs.times[i][1]].acc,
                        "another time is exported")
          [] e.op = "show" /\ e.n > 0 ->
               IF r.reopened THEN {}
               ELSE IF r.s # "stopped" THEN Bad(~e.obs.ok, "showing a timer that is not stopped is not refused")
               ELSE Bad(e.obs.ok, "a stopped timer cannot be shown")
                    \cup Bad(~e.obs.ok \/ e.obs.lines = <<<<e.n, Shown(r.acc, e)>>>>, "another time is shown")
          [] e.op = "show" ->
               Bad(e.obs.ok, "timers cannot be shown")
               \cup Bad(~e.obs.ok \/ LET shown == {e.obs.lines[i][1] : i \in DOMAIN e.obs.lines}
                                    IN  Len(e.obs.lines) = Cardinality(shown) /\ shown \ Reopened(s) = Stopped(s),
                        "not exactly the stopped timers are shown")
               \cup Bad(~e.obs.ok \/ \A i \in DOMAIN e.obs.lines : e.obs.lines[i][1] \in Stopped(s) => e.obs.lines[i][2] = Shown(s[e.obs.lines[i][1]].acc, e),
                        "another time is shown")
          [] e.op = "memory" ->   \* in the unit asked for; the peak lies between two readings, in KB
               IF e.unit = "bad" THEN Bad(~e.obs.ok, "an unknown unit is not refused")
               ELSE Bad(e.obs.ok, "the memory usage cannot be read")
                    \cup Bad(~e.obs.ok \/ (e.obs.lo - 1 <= e.obs.kb /\ e.obs.kb <= e.obs.hi + 1), "the memory usage is not reported in the unit asked for")
          [] OTHER -> {"unknown event"}
EventNext(s, e) ==
    LET r == s[e.n]
    IN  CASE e.op = "start" /\ r.s = "none" -> [s EXCEPT ![e.n] = [None EXCEPT !.s = "running", !.since = e.t]]
          [] e.op = "pause" /\ r.s \in {"running", "paused"} ->
                 [s EXCEPT ![e.n] = [@ EXCEPT !.s = "paused", !.acc = At(r, e.t), !.resumed = FALSE]]
          [] e.op = "resume" /\ r.s # "none" ->
                 [s EXCEPT ![e.n] = [@ EXCEPT !.s = "running", !.acc = At(r, e.t), !.since = e.t, !.resumed = TRUE,
                                              !.reopened = @ \/ r.s = "stopped"]]
          [] e.op = "stop" /\ r.s # "none" ->
                 [s EXCEPT ![e.n] = [@ EXCEPT !.s = "stopped", !.acc = At(r, e.t), !.reopened = FALSE]]
          [] OTHER -> s

Init == c \in DOMAIN Trace /\ l = 0 /\ st = [n \in 1..3 |-> None]
Next == /\ l < Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l + 1]
               bad == EventBad(st, e)
           IN  /\ bad # {} => PrintT("@@BAD " \o ToJson([c |-> c, l |-> l + 1, bad |-> bad]))
               /\ st' = EventNext(st, e)
        /\ l' = l + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
