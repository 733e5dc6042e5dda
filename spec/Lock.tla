-------------------------------- MODULE Lock --------------------------------
(***************************************************************************)
(* How nb processes exclude each other (repoLock() in src/repository.c).   *)
(* The lockfile is created, locked, looked up again (its holder may have   *)
(* removed it meanwhile), removed and unlocked.  A process may die at any  *)
(* point; the kernel then releases its locks.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Procs, MaxInodes, Kills,
          Recheck,      \* look the lockfile up again after locking it
          RemoveFirst   \* remove the lockfile before unlocking it

VARIABLES at,      \* inode of the lockfile, 0 if there is none
          used,    \* inodes used so far
          holder,  \* inode -> process holding its lock, or 0
          fd,      \* process -> inode it has open, or 0
          pc, kills

vars == <<at, used, holder, fd, pc, kills>>

Init == /\ at \in {0, 1} /\ used = at
        /\ holder = [n \in 1..MaxInodes |-> 0]
        /\ fd = [p \in Procs |-> 0] /\ pc = [p \in Procs |-> "idle"] /\ kills = Kills

Go(p, l) == pc' = [pc EXCEPT ![p] = l]

Start(p) == pc[p] = "idle" /\ Go(p, "open") /\ UNCHANGED <<at, used, holder, fd, kills>>

Open(p) ==
  /\ pc[p] = "open" /\ Go(p, "lock")
  /\ IF at = 0
     THEN /\ used < MaxInodes /\ used' = used + 1 /\ at' = used + 1
          /\ fd' = [fd EXCEPT ![p] = used + 1]
     ELSE UNCHANGED <<at, used>> /\ fd' = [fd EXCEPT ![p] = at]
  /\ UNCHANGED <<holder, kills>>

TryLock(p) ==
  /\ pc[p] = "lock"
  /\ IF holder[fd[p]] \in {0, p}
     THEN holder' = [holder EXCEPT ![fd[p]] = p] /\ Go(p, IF Recheck THEN "check" ELSE "work1")
     ELSE UNCHANGED holder /\ Go(p, "fail")
  /\ UNCHANGED <<at, used, fd, kills>>

Check(p) ==
  /\ pc[p] = "check" /\ Go(p, IF at = fd[p] THEN "work1" ELSE "open")
  /\ UNCHANGED <<at, used, holder, fd, kills>>

Work(p) ==
  /\ pc[p] \in {"work1", "work2", "work3"}
  /\ Go(p, CASE pc[p] = "work1" -> "work2" [] pc[p] = "work2" -> "work3"
             [] OTHER -> IF RemoveFirst THEN "remove" ELSE "unlock")
  /\ UNCHANGED <<at, used, holder, fd, kills>>

Remove(p) ==
  /\ pc[p] = "remove" /\ at' = 0 /\ Go(p, IF RemoveFirst THEN "unlock" ELSE "done")
  /\ UNCHANGED <<used, holder, fd, kills>>

Free(p) == holder' = [n \in DOMAIN holder |-> IF holder[n] = p THEN 0 ELSE holder[n]]

Unlock(p) ==
  /\ pc[p] = "unlock" /\ Free(p) /\ Go(p, IF RemoveFirst THEN "done" ELSE "remove")
  /\ UNCHANGED <<at, used, fd, kills>>

\* The repository is being used by somebody else.
Fail(p) ==
  /\ pc[p] = "fail" /\ Go(p, "failed") /\ Free(p)
  /\ UNCHANGED <<at, used, fd, kills>>

Kill(p) ==
  /\ kills > 0 /\ pc[p] \notin {"idle", "done", "failed", "dead"}
  /\ kills' = kills - 1 /\ Free(p) /\ Go(p, "dead")
  /\ UNCHANGED <<at, used, fd>>

Act(p) == Start(p) \/ Open(p) \/ TryLock(p) \/ Check(p) \/ Work(p) \/ Remove(p) \/ Unlock(p) \/ Fail(p)
Next == \E p \in Procs : Act(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Act(p))

Works(p) == pc[p] \in {"work1", "work2", "work3"}
Over(p) == pc[p] \in {"done", "failed", "dead"}

\* At most one process at a time works on the repository, and it holds the
\* lock of the very file others will find.
Mutex == \A p, q \in Procs : Works(p) /\ Works(q) => p = q
Protected == \A p \in Procs : Works(p) => at = fd[p] /\ holder[at] = p
\* Only who worked removes, and never somebody else's lockfile.
RemovesOwn == \A p \in Procs : pc[p] = "remove" => at = fd[p]
\* Whoever starts when nobody else is there gets the lock.
Alone(p) == \A q \in Procs \ {p} : pc[q] = "idle" \/ Over(q)
NotBlocked == \A p \in Procs : Alone(p) /\ pc[p] = "lock" => holder[fd[p]] \in {0, p}
\* Every process comes to an end.
Ends == \A p \in Procs : <>(Over(p) \/ pc[p] = "open")
=============================================================================
