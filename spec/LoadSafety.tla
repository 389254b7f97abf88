------------------------------ MODULE LoadSafety -----------------------------
(* Loading reads the files of a directory one after another. Somebody else   *)
(* may have replaced files by pickles, which run code when they are          *)
(* unpickled. Arrays are unpickled only by a reader that allows it; the      *)
(* other files are JSON, which holds no code. Reader = "guarded" hands the   *)
(* caller's choice to every reader; "loose" forgets it for one file.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Reader, Emit, Depth, MaxTampered
VARIABLES tampered, phase, req, todo, ran, hist
vars == <<tampered, phase, req, todo, ran, hist>>

Arrays == {"data", "indices", "indptr", "nnoc"}
Jsons == {"vocab", "params", "corpus", "mmindex", "tokvocab", "tokstop"}
Files == Arrays \cup Jsons
Scopes == {"load", "scores", "hub", "tokenizer"}
\* what a request reads (the non-occurrence array only for the methods that need it)
Reads(r, needs) ==
    CASE r.scope = "tokenizer" -> {"tokvocab", "tokstop"}
      [] r.scope = "scores" -> {"data", "indices", "indptr"}
      [] OTHER -> {"params", "data", "indices", "indptr"}
                  \cup (IF r.vocab THEN {"vocab"} ELSE {})
                  \cup (IF needs THEN {"nnoc"} ELSE {})
                  \cup (IF r.corpus THEN {"corpus"} ELSE {})
                  \cup (IF r.corpus /\ r.mmap THEN {"mmindex"} ELSE {})
\* (a mapped corpus is parsed only when an entry is asked for)
Eager(r, f) == ~(f = "corpus" /\ r.mmap)
MustAnswer(t, r, needs) == t \cap Reads(r, needs) = {}
\* (what a reader does about a pickle where JSON belongs is not settled, as long as no code runs)
MustRefuse(t, r, needs) == ~r.allow /\ t \cap Reads(r, needs) \cap Arrays # {}
MayRun(t, r, needs) == r.allow /\ t \cap Reads(r, needs) \cap Arrays # {}

Requests == {[scope |-> s, mmap |-> m, allow |-> a, vocab |-> v, corpus |-> c] :
               s \in Scopes, m \in BOOLEAN, a \in BOOLEAN, v \in BOOLEAN, c \in BOOLEAN}
Sensible(r) == /\ r.scope \in {"hub", "tokenizer", "scores"} => r.vocab
               /\ r.scope \in {"tokenizer", "scores"} => ~r.corpus
               /\ r.scope = "tokenizer" => ~r.mmap /\ ~r.allow
None == [scope |-> "none", mmap |-> FALSE, allow |-> FALSE, vocab |-> TRUE, corpus |-> FALSE]
Needs == TRUE
Log(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist

Init == tampered = {} /\ phase = "idle" /\ req = None /\ todo = {} /\ ran = FALSE /\ hist = <<>>
Tamper(f) == /\ phase = "idle" /\ f \notin tampered /\ Cardinality(tampered) < MaxTampered
             /\ tampered' = tampered \cup {f} /\ Log([op |-> "tamper", f |-> f, r |-> None]) /\ UNCHANGED <<phase, req, todo, ran>>
Save == /\ phase = "idle" /\ tampered # {} /\ tampered' = {} /\ Log([op |-> "save", f |-> "", r |-> None]) /\ UNCHANGED <<phase, req, todo, ran>>
Request(r) == /\ phase = "idle" /\ Sensible(r) /\ phase' = "reading" /\ req' = r /\ todo' = Reads(r, Needs) /\ ran' = FALSE
              /\ Log([op |-> "load", f |-> "", r |-> r]) /\ UNCHANGED tampered
Allowed(f) == req.allow \/ (Reader = "loose" /\ f = "nnoc")
Read(f) == /\ phase = "reading" /\ f \in todo
           /\ IF f \notin tampered \/ ~Eager(req, f) THEN todo' = todo \ {f} /\ UNCHANGED <<phase, ran>>
              ELSE IF f \in Arrays /\ Allowed(f) THEN ran' = TRUE /\ todo' = todo \ {f} /\ UNCHANGED phase
              ELSE phase' = "refused" /\ UNCHANGED <<todo, ran>>
           /\ UNCHANGED <<tampered, req, hist>>
Finish == phase = "reading" /\ todo = {} /\ phase' = "answers" /\ UNCHANGED <<tampered, req, todo, ran, hist>>
Again == phase \in {"refused", "answers"} /\ phase' = "idle" /\ req' = None /\ todo' = {} /\ ran' = FALSE /\ UNCHANGED <<tampered, hist>>
Step == (\E f \in Files : Tamper(f)) \/ Save \/ (\E r \in Requests : Request(r))
Inner == (\E f \in Files : Read(f)) \/ Finish \/ Again
\* (generating histories: requests take one step)
EmitStep == /\ Len(hist) < Depth /\ Step /\ (Len(hist') = Depth => PrintT("@@CASE " \o ToJson(hist')))
Next == IF Emit THEN (phase = "idle" /\ EmitStep) \/ (phase = "reading" /\ phase' = "idle" /\ UNCHANGED <<tampered, req, todo, ran, hist>>)
        ELSE Step \/ Inner
Spec == Init /\ [][Next]_vars

NoCode == ran => req.allow /\ MayRun(tampered, req, Needs)
Refuses == phase = "answers" => ~MustRefuse(tampered, req, Needs)
Answers == phase = "refused" => ~MustAnswer(tampered, req, Needs)
=============================================================================
