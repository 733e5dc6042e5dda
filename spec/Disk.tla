-------------------------------- MODULE Disk --------------------------------
(***************************************************************************)
(* What a power failure can leave behind.  Directory entries and file data *)
(* change in memory first; whatever has not been synchronised may be lost, *)
(* every entry and every file on its own.                                  *)
(*                                                                         *)
(* A disk is [cur, may, data]: cur maps a path to the inode it denotes now,*)
(* may to the set of inodes it may denote after a power failure, data maps *)
(* an inode to its content, which is Dirty while not synchronised.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT DirOf(_)  \* the directory of an entry, "" for the top level

None == "none"
Dir == "dir"
Dirty == "dirty"

Cur(d, p) == IF p \in DOMAIN d.cur THEN d.cur[p] ELSE None
May(d, p) == IF p \in DOMAIN d.may THEN d.may[p] ELSE {None}

Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]

SetEntry(d, p, v) ==
  [d EXCEPT !.cur = Put(@, p, v), !.may = Put(@, p, May(d, p) \cup {v})]

SyncDir(d, dir) ==
  [d EXCEPT !.may = [p \in DOMAIN @ |-> IF DirOf(p) = dir THEN {Cur(d, p)} ELSE @[p]]]

SetData(d, ino, content) == [d EXCEPT !.data = Put(@, ino, content)]

Create(d, p, ino) == SetEntry(SetData(d, ino, Dirty), p, ino)
Move(d, a, b) == SetEntry(SetEntry(d, b, Cur(d, a)), a, None)
Link(d, a, b) == SetEntry(d, b, Cur(d, a))
Remove(d, p) == SetEntry(d, p, None)
MakeDir(d, p) == SetEntry(d, p, Dir)

Content(d, ino) == IF ino \in DOMAIN d.data THEN d.data[ino] ELSE ino

\* What reading a path may yield after a power failure.
Readings(d, p) == {Content(d, v) : v \in May(d, p)}

RECURSIVE Reachable(_, _)
Reachable(d, p) == p = "" \/ (May(d, p) = {Dir} /\ Reachable(d, DirOf(p)))

\* The entry and its content are there after any power failure.
Durable(d, p, content) == Reachable(d, DirOf(p)) /\ Readings(d, p) = {content}

(***************************************************************************)
(* The repository survives: metas maps the content of each acceptable      *)
(* metadata file to the set of stored files [p, c] it refers to.           *)
(***************************************************************************)
Survives(d, metas) ==
  \A m \in Readings(d, "metadata") :
    m \in DOMAIN metas /\ \A r \in metas[m] : Durable(d, r.p, r.c)
=============================================================================
