------------------------------ MODULE HubTrace ------------------------------
(* Validation of recorded uploads and downloads against the merge model of   *)
(* Hub.tla: repositories are sequences of snapshots, every snapshot and      *)
(* local directory says which version of every part it holds.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Functions

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st
vars == <<c, l, st>>
Bad(cond, name) == IF cond THEN {} ELSE {name}

Parts == {"index", "corpus", "vocab", "stop", "readme"}
Nothing == [p \in Parts |-> 0]
Over(a, b) == [p \in Parts |-> IF b[p] # 0 THEN b[p] ELSE a[p]]
Empty == [x \in {} |-> 0]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, x) == (k :> x) @@ f

Stage(e) ==
    CASE e.kind = "index" -> [Nothing EXCEPT !["index"] = e.n, !["corpus"] = e.corpus, !["readme"] = IF e.readme THEN e.n ELSE 0]
      [] e.kind = "vocab" -> [Nothing EXCEPT !["vocab"] = e.n]
      [] e.kind = "stop" -> [Nothing EXCEPT !["stop"] = e.n]
Used(e) == e.dir # "" /\ (e.obs.before = <<>> \/ e.over)
Staged(s, e) == Over(IF Used(e) THEN Get(s.dirs, e.dir, Nothing) ELSE Nothing, Stage(e))
Snapshots(s, e) == Get(s.repos, e.repo, <<>>)
Snapshot(s, e) == LET sn == Snapshots(s, e) IN IF e.rev = 0 THEN sn[Len(sn)] ELSE sn[e.rev]
Loaded(s, e) == IF e.dir = "" THEN Snapshot(s, e) ELSE Over(Get(s.dirs, e.dir, Nothing), Snapshot(s, e))

Names(ls) == {ls[i][1] : i \in DOMAIN ls}
Foreign(ls) == {f \in ToSet(ls) : f[1] \in ToSet(Trace[c].foreign)}

UploadBad(s, e) ==
    Bad(e.obs.ok = (e.fails = "no"), IF e.fails = "no" THEN "uploading failed" ELSE "a failed upload is not reported")
    \cup Bad(e.obs.temps = <<>>, "a temporary directory is left behind")
    \cup (IF e.fails = "early" THEN Bad(e.obs.after = e.obs.before /\ e.obs.uploads = <<>>, "a refused upload wrote files")
          ELSE
          (IF Used(e) THEN Bad(Foreign(e.obs.before) \subseteq ToSet(e.obs.after), "a file of the directory was lost or changed")
           ELSE Bad(e.obs.after = e.obs.before, "a directory that is not empty was written to without overwriting being allowed"))
          \cup (IF Len(e.obs.uploads) # 1 THEN {"not exactly one upload"}
                ELSE LET up == e.obs.uploads[1]
                     IN  Bad(up.repo = e.canonical, "uploaded to another repository")
                         \cup (IF Used(e) THEN Bad(ToSet(up.files) = ToSet(e.obs.after), "the local directory is not what was uploaded")
                               ELSE Bad(Foreign(up.files) = {}, "files of a spared directory were uploaded")
                                    \cup Bad(e.kind # "index" \/ ("README.md" \in Names(up.files)) = e.readme, "README missing or unwanted"))
                         \cup Bad(e.kind # "index" \/ ~e.readme \/ e.obs.readme = Trace[c].facts[e.n], "the README tells other numbers than the index"))
          \cup Bad(e.obs.message, "the commit message was not passed on")
          \cup Bad(e.obs.private = e.private, "the repository was created with another visibility"))
LoadBad(s, e) ==
    LET possible == Snapshots(s, e) # <<>> /\ e.fails = "no" /\ Loaded(s, e)[IF e.kind = "index" THEN "index" ELSE e.kind] # 0
        p == Loaded(s, e)
    IN  IF ~possible THEN Bad(~e.obs.ok, "loading what does not exist is not reported")
        ELSE IF ~e.obs.ok THEN {"loading an uploaded version failed"}
        ELSE Bad(p[e.kind] \in ToSet(e.obs.equals), "the loaded version behaves differently than the uploaded one")
             \cup Bad(e.kind # "index" \/ (IF e.loadcorpus THEN p["corpus"] ELSE 0) \in ToSet(e.obs.corpora), "the loaded corpus is not the uploaded one")
             \cup Bad(e.obs.temps = <<>>, "a temporary directory is left behind")
             \cup Bad(e.dir = "" \/ ToSet(e.obs.snapshot) \subseteq ToSet(e.obs.after), "the download is not in the given directory")
             \cup Bad(e.obs.mapping, "memory-mapping was not used as requested")

EventBad(s, e) ==
    CASE "crash" \in DOMAIN e.obs -> {"the process died"}
      [] e.op = "upload" -> UploadBad(s, e)
      [] e.op = "load" -> LoadBad(s, e)
      [] e.op = "clear" -> {}
      [] OTHER -> {"unknown event"}
EventNext(s, e) ==
    CASE "crash" \in DOMAIN e.obs -> s
      [] e.op = "upload" /\ e.fails # "early" ->
           LET staged == Staged(s, e)
               last == LET sn == Snapshots(s, e) IN IF sn = <<>> THEN Nothing ELSE sn[Len(sn)]
           IN  [s EXCEPT !.dirs = IF Used(e) THEN Put(@, e.dir, staged) ELSE @,
                         !.repos = IF e.fails = "no" THEN Put(@, e.repo, Append(Snapshots(s, e), Over(last, staged))) ELSE @]
      [] e.op = "load" /\ e.dir # "" /\ Snapshots(s, e) # <<>> /\ e.fails = "no" -> [s EXCEPT !.dirs = Put(@, e.dir, Loaded(s, e))]
      [] e.op = "clear" -> [s EXCEPT !.dirs = Put(@, e.dir, Nothing)]
      [] OTHER -> s

Init == c \in DOMAIN Trace /\ l = 0 /\ st = [repos |-> Empty, dirs |-> Empty]
Next == /\ l < Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l + 1]
               bad == EventBad(st, e)
           IN  /\ bad # {} => PrintT("@@BAD " \o ToJson([c |-> c, l |-> l + 1, bad |-> bad]))
               /\ st' = EventNext(st, e)
        /\ l' = l + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
