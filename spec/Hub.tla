-------------------------------- MODULE Hub ---------------------------------
(* Uploads to and downloads from the hub. A directory (local or a repository *)
(* of the hub) holds the parts of an index, a corpus, a vocabulary,          *)
(* stopwords, a README and foreign files; every part is a version number.    *)
(* Writing parts over a directory keeps the other parts. Uploads merge the   *)
(* whole staging directory into the repository. Switches: Cleanup of the     *)
(* temporary directory "always" or only after "success"; Guard: whether a    *)
(* directory which is not empty is spared.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cleanup, Guard, Versions, Depth, Emit

Parts == {"index", "corpus", "vocab", "stop", "readme", "foreign"}
NONE == 0
Nothing == [p \in Parts |-> NONE]
Over(a, b) == [p \in Parts |-> IF b[p] # NONE THEN b[p] ELSE a[p]]     \* b written over a
IsEmpty(d) == d = Nothing

VARIABLES repo, dir, temps, spared, loaded, v, hist
vars == <<repo, dir, temps, spared, loaded, v, hist>>
Init == /\ repo = Nothing /\ dir \in {Nothing, [Nothing EXCEPT !["foreign"] = 1]}
        /\ temps = 0 /\ spared = TRUE /\ loaded = Nothing /\ v = 0 /\ hist = <<>>
Log(a) == hist' = IF Emit THEN Append(hist, a) ELSE hist

\* what an upload stages
Stage(kind, n, corpus, readme) ==
    CASE kind = "index" -> [Nothing EXCEPT !["index"] = n, !["corpus"] = IF corpus THEN n ELSE NONE, !["readme"] = IF readme THEN n ELSE NONE]
      [] kind = "vocab" -> [Nothing EXCEPT !["vocab"] = n]
      [] kind = "stop" -> [Nothing EXCEPT !["stop"] = n]

Upload(kind, corpus, readme, given, over, fails) ==
    LET n == v + 1
        used == given /\ (IsEmpty(dir) \/ over \/ ~Guard)
        staged == Over(IF used THEN dir ELSE Nothing, Stage(kind, n, corpus, readme))
    IN  /\ v < Versions /\ v' = n
        /\ dir' = IF used THEN staged ELSE dir
        /\ spared' = (spared /\ (IsEmpty(dir) \/ over \/ dir' = dir))
        /\ repo' = IF fails THEN repo ELSE Over(repo, staged)
        /\ temps' = IF ~used /\ fails /\ Cleanup = "success" THEN temps + 1 ELSE temps
        /\ Log([op |-> "upload", kind |-> kind, corpus |-> corpus, readme |-> readme, given |-> given, over |-> over, fails |-> fails])
        /\ UNCHANGED loaded
\* downloading: into the directory, or into a fresh one
Download(given) ==
    /\ repo["index"] # NONE \/ repo["vocab"] # NONE \/ repo["stop"] # NONE
    /\ loaded' = IF given THEN Over(dir, repo) ELSE repo
    /\ dir' = IF given THEN Over(dir, repo) ELSE dir
    /\ Log([op |-> "download", given |-> given])
    /\ UNCHANGED <<repo, temps, spared, v>>
Clear == /\ ~IsEmpty(dir) /\ dir' = Nothing /\ Log([op |-> "clear"]) /\ UNCHANGED <<repo, temps, spared, loaded, v>>

Step == \/ \E k \in {"index", "vocab", "stop"}, c, r, g, o, f \in BOOLEAN :
              (k # "index" => ~c /\ ~r) /\ Upload(k, c, r, g, o, f)
        \/ \E g \in BOOLEAN : Download(g)
        \/ Clear
Next == /\ Emit => Len(hist) < Depth
        /\ Step
        /\ (Emit /\ Len(hist') = Depth) => PrintT("@@CASE " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

NoTemporary == temps = 0
LocalSpared == spared
\* the repository changes only by what was staged; nothing of a spared directory gets into it
OnlyStaged == [][\A p \in Parts : repo'[p] # repo[p] => (repo'[p] = v' /\ v' = v + 1) \/ (repo'[p] = dir[p] /\ dir'[p] = dir[p])]_vars
\* a foreign file is never lost
ForeignKept == [][dir["foreign"] # NONE => dir'["foreign"] = dir["foreign"] \/ (dir' = Nothing /\ repo' = repo)]_vars
=============================================================================
