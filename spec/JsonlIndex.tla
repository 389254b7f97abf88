------------------------------ MODULE JsonlIndex ------------------------------
(* Files, stored offset indexes and open corpora. A corpus object reads the  *)
(* line i of its file from offset idx[i] to the next newline. A file is a    *)
(* sequence of bytes, 0 standing for the newline. Every open corpus must     *)
(* give every line of its own file, whichever index it took its offsets      *)
(* from.                                                                     *)
EXTENDS Jsonl, TLC, Json

CONSTANTS Paths,      \* file names
          Objects, MaxLen,
          Naming,     \* "injective" or "shared" (all files share the name of the stored index)
          Emit, Depth

VARIABLES files, stored, objs, hist
vars == <<files, stored, objs, hist>>

NoFile == <<-1>>
Contents == {s \in UNION {[1..n -> {0, 1, 2}] : n \in 1..MaxLen} : TRUE}
NameOf(p) == IF Naming = "injective" THEN p ELSE "all"
Names == {NameOf(p) : p \in Paths}
NONE == [none |-> TRUE]

\* lines of a file, newlines included
RECURSIVE LinesOf(_)
LinesOf(s) ==
    IF s = <<>> THEN <<>>
    ELSE LET e == IF \E i \in DOMAIN s : s[i] = 0 THEN CHOOSE i \in DOMAIN s : s[i] = 0 /\ \A j \in 1..(i-1) : s[j] # 0
                  ELSE Len(s)
         IN  <<SubSeq(s, 1, e)>> \o LinesOf(SubSeq(s, e + 1, Len(s)))
Index(s) == Offsets([i \in DOMAIN LinesOf(s) |-> Len(LinesOf(s)[i])])
\* what the object reads: from an offset up to and including the next newline
ReadAt(s, o) == IF o >= Len(s) THEN <<>> ELSE LinesOf(SubSeq(s, o + 1, Len(s)))[1]

Log(a) == hist' = IF Emit THEN Append(hist, a) ELSE hist
Init == /\ files = [p \in Paths |-> NoFile]
        /\ stored = [n \in Names |-> NONE]
        /\ objs = [o \in Objects |-> NONE]
        /\ hist = <<>>
Write(p) == /\ files[p] = NoFile
            /\ IF Emit THEN files' = [files EXCEPT ![p] = <<1, 0>>]
               ELSE \E s \in Contents : files' = [files EXCEPT ![p] = s]
            /\ Log([op |-> "write", path |-> p])
            /\ UNCHANGED <<stored, objs>>
Open(o, p, save) ==
    /\ files[p] # NoFile
    /\ LET st == stored[NameOf(p)]
           idx == IF st # NONE THEN st.idx ELSE Index(files[p])
       IN  /\ objs' = [objs EXCEPT ![o] = [path |-> p, idx |-> idx, open |-> TRUE]]
           /\ stored' = IF st = NONE /\ save THEN [stored EXCEPT ![NameOf(p)] = [idx |-> idx]] ELSE stored
    /\ Log([op |-> "open", o |-> o, path |-> p, save |-> save])
    /\ UNCHANGED files
Close(o) == /\ objs[o] # NONE /\ objs[o].open
            /\ objs' = [objs EXCEPT ![o].open = FALSE]
            /\ Log([op |-> "close", o |-> o]) /\ UNCHANGED <<files, stored>>
Reload(o) == /\ objs[o] # NONE
             /\ objs' = [objs EXCEPT ![o].open = TRUE]
             /\ Log([op |-> "reload", o |-> o]) /\ UNCHANGED <<files, stored>>
Read(o) == /\ Emit /\ objs[o] # NONE
           /\ Log([op |-> "get", o |-> o]) /\ UNCHANGED <<files, stored, objs>>
Step == \/ \E p \in Paths : Write(p)
        \/ \E o \in Objects, p \in Paths, save \in BOOLEAN : Open(o, p, save)
        \/ \E o \in Objects : Close(o) \/ Reload(o) \/ Read(o)
Next == /\ Emit => Len(hist) < Depth
        /\ Step
        /\ (Emit /\ Len(hist') = Depth) => PrintT("@@CASE " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

EveryLine == \A o \in Objects : objs[o] # NONE =>
    LET s == files[objs[o].path]
    IN  /\ Len(objs[o].idx) = Len(LinesOf(s))
        /\ \A i \in DOMAIN objs[o].idx : ReadAt(s, objs[o].idx[i]) = LinesOf(s)[i]
=============================================================================
