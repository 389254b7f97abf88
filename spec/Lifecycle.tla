------------------------------ MODULE Lifecycle ------------------------------
(* Life cycle of retrievers at the level of the memory and the files they    *)
(* depend on: vocabularies are objects which the caller keeps changing,      *)
(* arrays live in memory or are memory-mapped from files, saving replaces    *)
(* files. Whatever happens, a retriever must keep answering from the         *)
(* snapshot it was built from or loaded (ghost variable exp), and a          *)
(* directory must hold what the last save stored (ghost dexp).               *)
(*                                                                           *)
(* The switches turn off the measures which make this true; every one of     *)
(* these variants must violate an invariant.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS R, O, D,            \* retrievers, caller's objects, directories
          MaxEdits,           \* edits per object
          CopyVocab,          \* index() copies the caller's vocabulary
          UnlinkBeforeWrite,  \* save() replaces files instead of writing into them
          PublishAtEnd,       \* index() assigns its results only when it cannot fail anymore
          Emit, Depth         \* print the histories of length Depth

NOTHING == [none |-> TRUE]
NoContent == <<"nothing", 0>>
TORN == <<"torn", 0>>

VARIABLES heap,   \* object -> version of its content
          ret,    \* retriever -> NOTHING or [voc, data, nn]
          inode,  \* inode -> content
          dir,    \* directory -> inode of the data file, 0 if none
          meta,   \* directory -> content of the small files (read completely by load)
          exp, dexp, hist
vars == <<heap, ret, inode, dir, meta, exp, dexp, hist>>

Inodes == 1..(Cardinality(R) + Cardinality(D) + 1)
Mem(v) == [at |-> "mem", val |-> v]
Alias(o) == [at |-> "object", obj |-> o]
Map(i) == [at |-> "file", ino |-> i]
Content(x) == CASE x.at = "mem" -> x.val
                [] x.at = "object" -> <<x.obj, heap[x.obj]>>
                [] x.at = "file" -> inode[x.ino]
Snapshot(o) == <<o, heap[o]>>
Free == CHOOSE i \in Inodes : /\ \A d \in D : dir[d] # i
                              /\ \A r \in R : ret[r] = NOTHING \/ ret[r].data.at # "file" \/ ret[r].data.ino # i

Log(a) == hist' = IF Emit THEN Append(hist, a) ELSE hist

Init == /\ heap = [o \in O |-> 0]
        /\ ret = [r \in R |-> NOTHING]
        /\ inode = [i \in Inodes |-> NoContent]
        /\ dir = [d \in D |-> 0]
        /\ meta = [d \in D |-> NOTHING]
        /\ exp = [r \in R |-> NoContent]
        /\ dexp = [d \in D |-> NoContent]
        /\ hist = <<>>

Index(r, o) ==
    /\ ret' = [ret EXCEPT ![r] = [voc |-> IF CopyVocab THEN Mem(Snapshot(o)) ELSE Alias(o),
                                  data |-> Mem(Snapshot(o)), nn |-> Snapshot(o)]]
    /\ exp' = [exp EXCEPT ![r] = Snapshot(o)]
    /\ Log([op |-> "index", r |-> r, o |-> o])
    /\ UNCHANGED <<heap, inode, dir, meta, dexp>>
\* index() fails half-way, e.g. because reading the documents fails
FailIndex(r, o) ==
    /\ ret[r] # NOTHING
    /\ ret' = IF PublishAtEnd THEN ret ELSE [ret EXCEPT ![r].nn = Snapshot(o)]
    /\ Log([op |-> "failindex", r |-> r, o |-> o])
    /\ UNCHANGED <<heap, inode, dir, meta, exp, dexp>>
\* the caller edits the object, or the tokenizer it belongs to learns words
Edit(o) ==
    /\ heap[o] < MaxEdits
    /\ heap' = [heap EXCEPT ![o] = @ + 1]
    /\ Log([op |-> "edit", o |-> o])
    /\ UNCHANGED <<ret, inode, dir, meta, exp, dexp>>
Query(r) ==
    /\ Emit /\ ret[r] # NOTHING
    /\ Log([op |-> "query", r |-> r])
    /\ UNCHANGED <<heap, ret, inode, dir, meta, exp, dexp>>
Save(r, d) ==
    /\ ret[r] # NOTHING
    /\ LET target == IF dir[d] = 0 \/ UnlinkBeforeWrite THEN Free ELSE dir[d]
           \* opening for writing truncates, before the data is read
           torn == ret[r].data.at = "file" /\ ret[r].data.ino = target
           content == IF torn THEN TORN ELSE Content(ret[r].data)
       IN  /\ inode' = [inode EXCEPT ![target] = content]
           /\ dir' = [dir EXCEPT ![d] = target]
    /\ meta' = [meta EXCEPT ![d] = [voc |-> Content(ret[r].voc), nn |-> ret[r].nn]]
    /\ dexp' = [dexp EXCEPT ![d] = exp[r]]
    /\ Log([op |-> "save", r |-> r, d |-> d])
    /\ UNCHANGED <<heap, ret, exp>>
Load(r, d, mm) ==
    /\ dir[d] # 0
    /\ ret' = [ret EXCEPT ![r] = [voc |-> Mem(meta[d].voc), nn |-> meta[d].nn,
                                  data |-> IF mm THEN Map(dir[d]) ELSE Mem(inode[dir[d]])]]
    /\ exp' = [exp EXCEPT ![r] = dexp[d]]
    /\ Log([op |-> "load", r |-> r, d |-> d, mmap |-> mm])
    /\ UNCHANGED <<heap, inode, dir, meta, dexp>>

Step == \/ \E r \in R, o \in O : Index(r, o) \/ FailIndex(r, o)
        \/ \E o \in O : Edit(o)
        \/ \E r \in R : Query(r)
        \/ \E r \in R, d \in D : Save(r, d) \/ Load(r, d, TRUE) \/ Load(r, d, FALSE)
Next == /\ Emit => Len(hist) < Depth
        /\ Step
        /\ (Emit /\ Len(hist') = Depth) => PrintT("@@CASE " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

\* every retriever answers from its snapshot
AnswersStable ==
    \A r \in R : ret[r] # NOTHING =>
        /\ Content(ret[r].voc) = exp[r] /\ Content(ret[r].data) = exp[r] /\ ret[r].nn = exp[r]
\* a directory holds exactly what the last save stored
DirectoriesHold ==
    \A d \in D : dir[d] # 0 => inode[dir[d]] = dexp[d] /\ meta[d] = [voc |-> dexp[d], nn |-> dexp[d]]
=============================================================================
