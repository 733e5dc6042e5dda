------------------------------- MODULE Damage -------------------------------
(***************************************************************************)
(* Judges what commands of the real program did with altered metadata      *)
(* files (see MetaFormat).  One behaviour per file, one step per command.  *)
(***************************************************************************)
EXTENDS MetaFormat, Json, IOUtils, TLC, FiniteSets

D == JsonDeserialize(IOEnv.TRACE)

VARIABLES c, i
vars == <<c, i>>

Init == c \in 1..Len(D.cases) /\ i = 0

Case == D.cases[c]

\* To the paths of a file too large to be listed, a chain of directories, one
\* in the other, was added, which is well-formed unless it is cut.
Judged(x) == IF "chain" \in DOMAIN x /\ x.chain.cut THEN Truncated ELSE Verdict(x.bytes)

\* run: exit, op, meta (metadata changed), store (something stored changed or
\* vanished), fs (anything else changed)
Bad(run, v) ==
  (IF run.exit > 1 THEN {"crash"} ELSE {})
  \cup (IF v < 0 /\ run.exit = 0 THEN {"accepted"} ELSE {})
  \cup (IF (v < 0 \/ run.exit = 1) /\ run.meta THEN {"metadata-modified"} ELSE {})
  \cup (IF (v < 0 \/ run.exit = 1) /\ run.store THEN {"store-modified"} ELSE {})
  \cup (IF v < 0 /\ run.extra THEN {"repository-modified"} ELSE {})
  \cup (IF v < 0 /\ run.fs THEN {"files-modified"} ELSE {})
  \cup (IF v = 0 /\ run.original /\ run.exit = 1 THEN {"rejected"} ELSE {})

Say(x, v) == PrintT("MISMATCH " \o ToJson([c |-> c, i |-> i + 1, label |-> x, why |-> Why(v)]))

Next ==
  /\ i < Len(Case.runs)
  /\ LET v == Judged(Case) IN
     /\ (i = 0 => PrintT("VERDICT " \o ToJson([c |-> c, v |-> Why(v)])))
     /\ \A x \in Bad(Case.runs[i + 1], v) : Say(x, v)
  /\ i' = i + 1
  /\ UNCHANGED c

Spec == Init /\ [][Next]_vars
=============================================================================
