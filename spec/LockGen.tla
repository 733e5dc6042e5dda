------------------------------ MODULE LockGen -------------------------------
(***************************************************************************)
(* Behaviours of Lock, printed as schedules for the real program.          *)
(***************************************************************************)
EXTENDS Lock, Json, TLC

VARIABLE sched
gvars == <<at, used, holder, fd, pc, kills, sched>>

\* Every process starts, and kills are rarer than other steps.
GInit == Init /\ sched = <<[p |-> 0, a |-> IF at = 0 THEN "none" ELSE "leftover"]>>

Did(p, a) == sched' = Append(sched, [p |-> p, a |-> a])

GNext == \E p \in Procs :
  \/ Act(p) /\ Did(p, pc[p])
  \/ Kill(p) /\ pc[p] \notin {"idle", "open", "fail", "unlock"} /\ Did(p, "kill")

GSpec == GInit /\ [][GNext]_gvars

Finished == \A p \in Procs : Over(p)
\* Evaluated once per behaviour, in its last state.
Show == Finished => PrintT("SCHED " \o ToJson([s |-> sched, end |-> pc]))
=============================================================================
