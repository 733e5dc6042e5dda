----------------------------- MODULE LockTrace ------------------------------
(***************************************************************************)
(* Judges recorded interleavings of real processes: what they did to the   *)
(* repository, in which order, and how they ended.                         *)
(*   start p            the process was started                            *)
(*   w p                it read or changed something in the repository     *)
(*                      besides the lockfile                               *)
(*   unlink p           it removed the lockfile                            *)
(*   kill p, fault p    it was killed, one of its system calls failed      *)
(*   end p x            it exited with x                                   *)
(*   stuck p            it neither went on nor exited, others being paused *)
(*   after x            a later command, alone, exited with x              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

D == JsonDeserialize(IOEnv.TRACE)

VARIABLES c, i,
  working,   \* processes which have begun to work and will go on to do so
  running,
  entered,   \* process -> who was at work when it started
  met,       \* processes which were not alone all the time
  faulty
vars == <<c, i, working, running, entered, met, faulty>>

Case == D.cases[c]
Ev == Case.ev[i + 1]

Init == /\ c \in 1..Len(D.cases) /\ i = 0
        /\ working = {} /\ running = {} /\ met = {} /\ faulty = {}
        /\ entered = [p \in 0..9 |-> {}]

\* Does the process work after event k?
Works(p, k) == \E j \in (k + 1)..Len(Case.ev) : Case.ev[j].e = "w" /\ Case.ev[j].p = p

Bad ==
  CASE Ev.e = "w" -> IF working \ {Ev.p} # {} THEN {"two-at-work"} ELSE {}
    [] Ev.e = "unlink" -> IF working \ {Ev.p} # {} THEN {"lock-taken-away"} ELSE {}
    [] Ev.e = "stuck" -> {"waits"}
    [] Ev.e = "end" ->
         \* alone for its whole life
         (IF Ev.p \notin met /\ Ev.p \notin faulty /\ Ev.x # 0 THEN {"blocked"} ELSE {})
         \* started and ended while another one was at work
         \cup (IF Ev.x = 0 /\ entered[Ev.p] \cap working # {} THEN {"not-excluded"} ELSE {})
         \cup (IF Ev.x > 1 THEN {"crash"} ELSE {})
    [] Ev.e = "after" -> IF Ev.x # 0 THEN {"broken-afterwards"} ELSE {}
    [] OTHER -> {}

Say(x) == PrintT("MISMATCH " \o ToJson([c |-> c, i |-> i + 1, label |-> x, p |-> Ev.p]))

Next ==
  /\ i < Len(Case.ev)
  /\ \A x \in Bad : Say(x)
  /\ working' = CASE Ev.e = "w" /\ Works(Ev.p, i + 1) -> working \cup {Ev.p}
                  [] Ev.e \in {"w", "kill", "end"} -> working \ {Ev.p}
                  [] OTHER -> working
  /\ running' = CASE Ev.e = "start" -> running \cup {Ev.p}
                  [] Ev.e \in {"kill", "end"} -> running \ {Ev.p}
                  [] OTHER -> running
  /\ met' = IF Ev.e = "start" /\ running # {} THEN met \cup running \cup {Ev.p} ELSE met
  /\ entered' = IF Ev.e = "start" THEN [entered EXCEPT ![Ev.p] = working] ELSE entered
  /\ faulty' = IF Ev.e = "fault" THEN faulty \cup {Ev.p} ELSE faulty
  /\ i' = i + 1
  /\ UNCHANGED c

Spec == Init /\ [][Next]_vars
=============================================================================
