-------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The repository directory: stored contents, garbage collection           *)
(* (src/garbage-collector.c), integrity check (src/integrity.c), choice of *)
(* storage names (src/backup.c).                                           *)
(*                                                                         *)
(* A repository is a map from the path relative to it to                   *)
(*   [t: "reg", sz, c, k]  [t: "lnk"]  [t: "dir"]  [t: "oth"]              *)
(* where c is the content and k its storage name without size and slot.    *)
(***************************************************************************)
EXTENDS Restore

CONSTANTS
  HexOf(_),      \* hexadecimal form of a size
  RepoParOf(_),  \* parent of a path in the repository, "" for the top level
  SplitStored(_) \* [k, sz (hex), slot (Int, -1 if it is no storage path)]

Big(st) == st.t = "reg" /\ (st.sz > InlineMax \/ st.sz < 0)
StoredName(st) == st.k \o "x" \o HexOf(st.sz) \o "x" \o st.sl

States(meta) == UNION {{meta.paths[p].hist[i].st : i \in 1..Len(meta.paths[p].hist)}
                       : p \in DOMAIN meta.paths}
Referenced(meta) == {StoredName(st) : st \in {s \in States(meta) : Big(s)}}

RECURSIVE RepoParents(_)
RepoParents(p) == IF p = "" \/ RepoParOf(p) = "" THEN {}
                  ELSE {RepoParOf(p)} \cup RepoParents(RepoParOf(p))

\* Everything a repository contains after garbage collection.
Clean(repo, refs) ==
  LET keep == DOMAIN repo \cap (refs \cup {"config", "metadata"})
      dirs == UNION {RepoParents(p) : p \in keep}
  IN  [p \in keep \cup dirs |-> repo[p]]

Deleted(repo, refs) ==
  LET gone == DOMAIN repo \ DOMAIN Clean(repo, refs)
  IN  FoldSet(LAMBDA p, a : SzAdd(a, SizeOf(repo[p].sz)), Sz0, {p \in gone : repo[p].t = "reg"})

Intact(repo, st) ==
  LET p == StoredName(st)
  IN  p \in DOMAIN repo /\ repo[p].t = "reg" /\ repo[p].sz = st.sz /\ repo[p].k = st.k

Broken(meta, repo) ==
  {p \in DOMAIN meta.paths :
     \E i \in 1..Len(meta.paths[p].hist) :
        LET st == meta.paths[p].hist[i].st IN Big(st) /\ ~Intact(repo, st)}

\* Every retained state can be restored.
AllIntact(meta, repo) == Broken(meta, repo) = {}

\* Slots under which files with the storage prefix k and size sz exist.
SlotsOf(repo, k, sz) ==
  {SplitStored(p).slot : p \in {p \in DOMAIN repo :
      LET s == SplitStored(p) IN s.slot >= 0 /\ s.k = k /\ s.sz = HexOf(sz)}}
=============================================================================
