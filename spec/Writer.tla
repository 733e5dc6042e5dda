------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* How a backup gets onto the disk (src/repository.c, src/backup.c and     *)
(* src/garbage-collector.c), one system call after the other, on a disk    *)
(* which may lose whatever was not synchronised.  New contents are stored  *)
(* in any order, below directories some of which exist already; then the   *)
(* metadata is replaced; then everything nobody refers to is removed, in   *)
(* any order, by this run or by a garbage collection after a kill.         *)
(*                                                                         *)
(* Omit names a step that is left out, to show that all are needed.        *)
(***************************************************************************)
EXTENDS Disk, TLC

CONSTANTS New,      \* names of the contents to be stored
          Old,      \* names of those stored before
          Shared,   \* those of Old which the new backup refers to as well
          Omit

\* Where contents are: names are tuples <<directory, subdirectory, file>>.
PathOf(f) == f[1] \o "/" \o f[2] \o "/" \o f[3]
SubOf(f) == f[1] \o "/" \o f[2]
Paths == {PathOf(f) : f \in New \cup Old} \cup {SubOf(f) : f \in New \cup Old}
         \cup {f[1] : f \in New \cup Old} \cup {"metadata", "tmp-file", "config"}
WDirOf(p) ==
  IF \E f \in New \cup Old : p = PathOf(f) THEN SubOf(CHOOSE f \in New \cup Old : p = PathOf(f))
  ELSE IF \E f \in New \cup Old : p = SubOf(f) THEN (CHOOSE f \in New \cup Old : p = SubOf(f))[1]
  ELSE ""

Metas == ("old" :> {[p |-> PathOf(f), c |-> PathOf(f)] : f \in Old})
         @@ ("new" :> {[p |-> PathOf(f), c |-> PathOf(f)] : f \in New \cup Shared})

VARIABLES d,      \* the disk
          todo,   \* contents still to be stored
          cur,    \* the content being stored, <<>> if none
          pc,
          inos,   \* inodes used
          done    \* the program has reported success or discards things

vars == <<d, todo, cur, pc, inos, done>>

StartDisk ==
  LET dirs == {f[1] : f \in Old} \cup {SubOf(f) : f \in Old}
      files == {PathOf(f) : f \in Old}
      all == dirs \cup files \cup {"metadata", "config"}
      now == [p \in all |-> IF p \in dirs THEN Dir ELSE p]
  IN  [cur |-> now, may |-> [p \in all |-> {now[p]}],
       data |-> [p \in files \cup {"metadata", "config"} |-> IF p = "metadata" THEN "old" ELSE p]]

Init == /\ d = StartDisk /\ todo = New /\ cur = <<>> /\ pc = "next" /\ inos = 0 /\ done = FALSE

Ino(n) == "i" \o ToString(n)
Exists(p) == Cur(d, p) # None
Sync(l, disk, dir) == IF Omit = l THEN disk ELSE SyncDir(disk, dir)

Pick == /\ pc = "next" /\ todo # {}
        /\ \E f \in todo : cur' = f /\ todo' = todo \ {f}
        /\ pc' = "open" /\ UNCHANGED <<d, inos, done>>
\* contents first, then the metadata
Last == /\ pc = "next" /\ todo = {} /\ pc' = "open" /\ cur' = <<"metadata">>
        /\ UNCHANGED <<d, todo, inos, done>>

IsMeta == cur = <<"metadata">>
Target == IF IsMeta THEN "metadata" ELSE PathOf(cur)
Content1 == IF IsMeta THEN "new" ELSE PathOf(cur)

Open == /\ pc = "open"
        /\ IF Exists("tmp-file")
           THEN d' = SetData(d, Cur(d, "tmp-file"), Dirty) /\ UNCHANGED inos
           ELSE d' = Create(d, "tmp-file", Ino(inos + 1)) /\ inos' = inos + 1
        /\ pc' = "flush" /\ UNCHANGED <<todo, cur, done>>
Flush == /\ pc = "flush"
         /\ d' = IF Omit = "data" \/ (Omit = "metadata" /\ IsMeta) THEN d ELSE SetData(d, Cur(d, "tmp-file"), Content1)
         /\ pc' = (IF IsMeta THEN "move" ELSE "dir1") /\ UNCHANGED <<todo, cur, inos, done>>
Dir1 == /\ pc = "dir1"
        /\ IF Exists(SubOf(cur)) THEN pc' = "move" /\ UNCHANGED d
           ELSE IF Exists(cur[1]) THEN pc' = "dir2" /\ UNCHANGED d
           ELSE pc' = "sync1" /\ d' = MakeDir(d, cur[1])
        /\ UNCHANGED <<todo, cur, inos, done>>
Sync1 == /\ pc = "sync1" /\ d' = Sync("dir1", d, "") /\ pc' = "dir2" /\ UNCHANGED <<todo, cur, inos, done>>
Dir2 == /\ pc = "dir2" /\ d' = MakeDir(d, SubOf(cur)) /\ pc' = "sync2" /\ UNCHANGED <<todo, cur, inos, done>>
Sync2 == /\ pc = "sync2" /\ d' = Sync("dir2", d, cur[1]) /\ pc' = "move" /\ UNCHANGED <<todo, cur, inos, done>>
Rename == /\ pc = "move" /\ d' = Move(d, "tmp-file", Target)
          /\ pc' = (IF IsMeta THEN "top" ELSE "entry") /\ UNCHANGED <<todo, cur, inos, done>>
Entry == /\ pc = "entry" /\ d' = Sync("entry", d, SubOf(cur)) /\ pc' = "top" /\ UNCHANGED <<todo, cur, inos, done>>
Top == /\ pc = "top" /\ d' = IF Omit = "top" THEN d ELSE Sync(IF IsMeta THEN "metatop" ELSE "filetop", d, "")
       /\ pc' = (IF IsMeta THEN "gc" ELSE "next") /\ UNCHANGED <<todo, cur, inos>>
       /\ done' = IsMeta

Needed == IF Cur(d, "metadata") # None /\ Content(d, Cur(d, "metadata")) = "old" THEN Old ELSE New \cup Shared
Garbage == {PathOf(f) : f \in {f \in Old \cup New : f \notin Needed}} \cup {"tmp-file"}
Discard == /\ pc = "gc"
           /\ \E p \in Garbage \cup {SubOf(f) : f \in Old \cup New} \cup {f[1] : f \in Old \cup New} :
                /\ Exists(p)
                /\ p \notin Garbage => \A q \in Paths : WDirOf(q) = p => ~Exists(q)
                /\ d' = Remove(d, p)
           /\ UNCHANGED <<todo, cur, pc, inos, done>>
End == pc = "gc" /\ pc' = "end" /\ UNCHANGED <<d, todo, cur, inos, done>>

Next == Pick \/ Last \/ Open \/ Flush \/ Dir1 \/ Sync1 \/ Dir2 \/ Sync2 \/ Rename \/ Entry \/ Top \/ Discard \/ End
Spec == Init /\ [][Next]_vars

\* Two contents below the same new directories, one below an old one; an old
\* one shared with the new backup and one which is not.
MCNew == {<<"a", "aa", "1">>, <<"a", "aa", "2">>, <<"a", "bb", "3">>, <<"c", "cc", "4">>}
MCOld == {<<"c", "cc", "5">>, <<"c", "dd", "6">>, <<"e", "ee", "7">>}
MCShared == {<<"c", "dd", "6">>}

\* After a power failure at this point ...
Intact == Survives(d, Metas)
ConfigIntact == Readings(d, "config") = {"config"}
Done == done => Readings(d, "metadata") = {"new"}
=============================================================================
