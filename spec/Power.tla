------------------------------- MODULE Power --------------------------------
(***************************************************************************)
(* Recorded system calls of the real program, replayed on a Disk.  After   *)
(* every one of them the power may fail.                                   *)
(***************************************************************************)
EXTENDS Disk, Json, IOUtils, TLC, SequencesExt

D == JsonDeserialize(IOEnv.TRACE)
PDirOf(p) == D.dirof[p]

VARIABLES c, i, d, discarding
vars == <<c, i, d, discarding>>

Fn(x) == IF DOMAIN x = {} THEN <<>> ELSE x
Case == D.cases[c]
Metas == [m \in DOMAIN Case.metas |-> ToSet(Case.metas[m])]

Init == /\ c \in 1..Len(D.cases) /\ i = 0 /\ discarding = FALSE
        /\ d = [cur |-> Fn(D.cases[c].cur), data |-> Fn(D.cases[c].data),
                may |-> [p \in DOMAIN Fn(D.cases[c].cur) |-> {D.cases[c].cur[p]}]]

Op == Case.ops[i + 1]

RECURSIVE SyncInos(_, _)
SyncInos(disk, l) == IF l = <<>> THEN disk ELSE SyncInos(SetData(disk, l[1].i, l[1].c), Tail(l))

Step(disk, op) ==
  CASE op.op = "create" -> Create(disk, op.p, op.i)
    [] op.op = "dirty" -> SetData(disk, op.i, Dirty)
    [] op.op = "sync" -> SetData(disk, op.i, op.c)
    [] op.op = "syncdir" -> SyncDir(disk, op.p)
    [] op.op = "syncall" -> [SyncInos(disk, op.l) EXCEPT !.may = [p \in DOMAIN @ |-> {Cur(disk, p)}]]
    [] op.op = "move" -> Move(disk, op.p, op.q)
    [] op.op = "link" -> Link(disk, op.p, op.q)
    [] op.op = "remove" -> Remove(disk, op.p)
    [] op.op = "mkdir" -> MakeDir(disk, op.p)
    [] op.op = "end" -> disk

\* What was in the repository before and does not belong to the temporary
\* files is being removed.
Discards(op) == op.op = "remove" /\ op.p \in DOMAIN Case.cur /\ op.p \notin {"lockfile", "tmp-file"}

Bad(disk, op) ==
  (IF Survives(disk, Metas) THEN {} ELSE {"lost"})
  \cup (IF Readings(disk, "config") = {Case.cur["config"]} THEN {} ELSE {"config"})
  \cup (IF (discarding \/ Discards(op)) /\ Readings(disk, "metadata") # {Case.new} THEN {"discards-too-early"} ELSE {})
  \cup (IF op.op = "end" /\ Case.exit = 0 /\ Readings(disk, "metadata") # {Case.new} THEN {"not-durable"} ELSE {})

Say(x) == PrintT("MISMATCH " \o ToJson([c |-> c, i |-> i + 1, label |-> x, call |-> Op.n]))

Next ==
  /\ i < Len(Case.ops)
  /\ d' = Step(d, Op)
  /\ \A x \in Bad(d', Op) : Say(x)
  /\ discarding' = (discarding \/ Discards(Op))
  /\ i' = i + 1
  /\ UNCHANGED c

Spec == Init /\ [][Next]_vars
=============================================================================
