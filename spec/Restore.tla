------------------------------- MODULE Restore ------------------------------
(***************************************************************************)
(* Restoring (src/restore.c).                                              *)
(***************************************************************************)
EXTENDS Warn

Gone == [t |-> "gone"]

RECURSIVE IsBelow(_, _)
IsBelow(q, p) == q # "" /\ (ParOf(q) = p \/ IsBelow(ParOf(q), p))

\* The state recorded for a path at backup id; Gone if it did not exist.
OwnState(n, id) ==
  IF n.pol # "track" THEN (IF n.hist[1].st.t = "non" THEN Gone ELSE n.hist[1].st)
  ELSE LET S == {i \in 1..Len(n.hist) : n.hist[i].id >= id}
       IN  IF S = {} THEN Gone
           ELSE LET st == n.hist[Min(S)].st IN IF st.t = "non" THEN Gone ELSE st

\* Directories which are tracked for a shorter time than something in them
\* were there when that was.
StateAt(nodes, p, id) ==
  LET n == nodes[p]
      k == Len(n.hist)
  IN  IF n.pol = "track" /\ n.hist[k].id < id
      THEN IF n.hist[k].st.t = "dir"
              /\ \E q \in DOMAIN nodes : IsBelow(q, p) /\ nodes[q].pol = "track" /\ OwnState(nodes[q], id) # Gone
           THEN n.hist[k].st ELSE Gone
      ELSE OwnState(n, id)

RestoreTypeHint(st, is) ==
  CASE st = "reg" /\ is = "lnk" -> HLnkReg
    [] st = "reg" /\ is = "dir" -> HDirReg
    [] st = "reg" /\ is = "oth" -> HOthReg
    [] st = "lnk" /\ is = "reg" -> HRegLnk
    [] st = "lnk" /\ is = "dir" -> HDirLnk
    [] st = "lnk" /\ is = "oth" -> HOthLnk
    [] st = "dir" /\ is = "reg" -> HRegDir
    [] st = "dir" /\ is = "lnk" -> HLnkDir
    [] st = "dir" /\ is = "oth" -> HOthDir
    [] OTHER -> 0

\* What is at path p now.  A symlink leading to a directory counts as one
\* where a directory was recorded.
ActualAt(fs, p, st) ==
  LET c == Locate(fs, p) IN
  IF c = "?" \/ c \notin DOMAIN fs THEN Gone
  ELSE IF st.t = "dir" /\ fs[c].t = "lnk"
       THEN LET r == Resolve(fs, p, 8)
            IN  IF r # "?" /\ r # "" /\ fs[r].t = "dir" THEN fs[r] ELSE fs[c]
       ELSE fs[c]

CompareHint(fs, p, st, couldExist) ==
  LET is == IF couldExist THEN ActualAt(fs, p, st) ELSE Gone
  IN  IF is = Gone THEN HAdded
      ELSE IF RestoreTypeHint(st.t, is.t) # 0 THEN RestoreTypeHint(st.t, is.t)
      ELSE Compare(HNone, st, is).hint

Absent(h) == NoPol(h) >= HAdded /\ NoPol(h) <= HOthDir

\* Hints for p and everything below which existed at backup id.
RECURSIVE CheckTree(_, _, _, _, _)
CheckTree(fs, nodes, p, id, couldExist) ==
  LET st == StateAt(nodes, p, id)
      h == CompareHint(fs, p, st, couldExist)
      ns == [nodes EXCEPT ![p].hint = h]
  IN  IF st.t # "dir" THEN ns
      ELSE FoldSet(LAMBDA q, a : IF StateAt(a, q, id) = Gone THEN a
                                 ELSE CheckTree(fs, a, q, id, couldExist /\ ~Absent(h)),
                   ns, Kids(nodes, p))

\* Parents of a path, topmost first.
RECURSIVE Parents(_)
Parents(p) == IF ParOf(p) = "" THEN <<>> ELSE Append(Parents(ParOf(p)), ParOf(p))

\* What is wrong with the path to restore: the first of its parts that is
\* no directory recorded for this backup.
PathError(n0, id, path) ==
  LET parts == Append(Parents(path), path)
      wrong(q) == IF q \notin DOMAIN n0 THEN "path doesn't exist in repository: " \o Q(path)
                  ELSE IF StateAt(n0, q, id) = Gone THEN "path didn't exist at the specified time: " \o Q(q)
                  ELSE IF q # path /\ StateAt(n0, q, id).t # "dir"
                       THEN "path was not a directory at the specified time: " \o Q(q)
                  ELSE ""
  IN  FoldLeft(LAMBDA a, q : IF a # "" THEN a ELSE wrong(q), "", parts)

\* [err, nodes]
InitiateRestore(fs, meta, id, path) ==
  LET n0 == NodesOf(meta) IN
  IF path = "" THEN
    [err |-> "",
     nodes |-> FoldSet(LAMBDA q, a : IF StateAt(a, q, id) = Gone THEN a
                                     ELSE CheckTree(fs, a, q, id, TRUE), n0, Kids(n0, ""))]
  ELSE LET ps == Parents(path)
           err == PathError(n0, id, path)
           r == FoldLeft(LAMBDA a, p :
                  LET h == CompareHint(fs, p, StateAt(n0, p, id), a.could)
                  IN  [could |-> a.could /\ ~Absent(h), nodes |-> [a.nodes EXCEPT ![p].hint = h]],
                  [could |-> TRUE, nodes |-> n0], ps)
       IN  IF err # "" THEN [err |-> err, nodes |-> n0]
           ELSE [err |-> "", nodes |-> CheckTree(fs, r.nodes, path, id, r.could)]

------------------------------------------------------------ (* effects *)
Touch(fs, c) == IF c = "" \/ c \notin DOMAIN fs THEN fs ELSE [fs EXCEPT ![c].mt = "NOW"]

RemoveTree(fs, c) ==
  Touch([q \in {q \in DOMAIN fs : q # c /\ ~IsBelow(q, c)} |-> fs[q]], ParOf(c))

\* The file system state for a recorded state; cont maps the state of a big
\* regular file to its content.
FsState(st, cont) ==
  IF st.t = "reg" THEN [t |-> "reg", u |-> st.u, g |-> st.g, m |-> st.m, mt |-> st.mt,
                        sz |-> st.sz, k |-> st.k, c |-> IF st.sz > InlineMax THEN cont[st] ELSE st.k]
  ELSE st

Create(fs, c, st, cont) == Touch((c :> FsState(st, cont)) @@ fs, ParOf(c))

\* [fs, apt]; apt: the parent's timestamp has to be restored
RECURSIVE Apply(_, _, _, _, _)
Apply(fs, nodes, p, id, cont) ==
  LET n == nodes[p]
      st == StateAt(nodes, p, id)
      h == NoPol(n.hint)
      c == Locate(fs, p)
      rc == Resolve(fs, p, 8)
      r1 == IF h = HAdded THEN [fs |-> Create(fs, c, st, cont), apt |-> TRUE]
            ELSE IF h >= HRegLnk /\ h <= HOthDir
              THEN [fs |-> Create(RemoveTree(fs, c), c, st, cont), apt |-> TRUE]
            ELSE IF n.pol = "none" \/ h = HNone THEN [fs |-> fs, apt |-> FALSE]
            ELSE IF st.t = "lnk" THEN
              IF Has(h, HContent)
              THEN [fs |-> Create(RemoveTree(fs, c), c, st, cont), apt |-> TRUE]
              ELSE [fs |-> [fs EXCEPT ![c] = st], apt |-> FALSE]
            ELSE IF st.t = "dir" THEN [fs |-> [fs EXCEPT ![rc] = st], apt |-> FALSE]
            ELSE [fs |-> [fs EXCEPT ![c] =
                    IF Has(h, HContent) THEN FsState(st, cont)
                    ELSE [fs[c] EXCEPT !.u = st.u, !.g = st.g, !.m = st.m, !.mt = st.mt]],
                  apt |-> FALSE]
      r2 == FoldSet(LAMBDA q, a :
              LET x == Apply(a.fs, nodes, q, id, cont)
              IN  [fs |-> x.fs, apt |-> a.apt \/ x.apt],
              [fs |-> r1.fs, apt |-> FALSE], Kids(nodes, p))
      dc == Resolve(r2.fs, p, 8)
      fs3 == IF r2.apt /\ n.pol # "none" THEN [r2.fs EXCEPT ![dc].mt = st.mt] ELSE r2.fs
  IN  IF st = Gone THEN [fs |-> fs, apt |-> FALSE]
      ELSE IF st.t # "dir" THEN r1
      ELSE [fs |-> fs3, apt |-> r1.apt]

FinishRestore(fs, nodes, id, cont) ==
  FoldSet(LAMBDA q, a : Apply(a, nodes, q, id, cont).fs, fs, Kids(nodes, ""))

\* Recorded states whose content the restore needs.  A path in linked has
\* further hard links: it is not changed in place, for their sake.
RECURSIVE Needed(_, _, _, _, _)
Needed(fs, nodes, p, id, linked) ==
  LET n == nodes[p]
      st == StateAt(nodes, p, id)
      h == NoPol(n.hint)
  IN  IF st = Gone THEN {}
      ELSE (IF st.t = "reg" /\ (Absent(h) \/ (n.pol # "none" /\ (Has(h, HContent) \/ (h # HNone /\ Locate(fs, p) \in linked))))
            THEN {st} ELSE {})
           \cup (IF st.t = "dir" THEN UNION {Needed(fs, nodes, q, id, linked) : q \in Kids(nodes, p)} ELSE {})
=============================================================================
