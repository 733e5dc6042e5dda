------------------------------- MODULE Backup -------------------------------
(***************************************************************************)
(* A backup as nano-backup performs it (src/backup.c, backup-helpers.c):   *)
(* from the metadata of the last backup, the paths found in the file       *)
(* system and the configuration to the new metadata.                       *)
(*                                                                         *)
(* Metadata: [ex, times, paths].  times is the sequence of completion      *)
(* times of the retained backups, newest first; paths maps a path to       *)
(* [pol, hist], hist being a newest-first sequence of [id, st] where id is *)
(* the 0-based position of the backup in times.                            *)
(*                                                                         *)
(* States of a path:                                                       *)
(*   [t: "non"]   [t: "lnk", u, g, tg]   [t: "dir", u, g, m, mt]           *)
(*   [t: "reg", u, g, m, mt, sz, k]                                        *)
(* k identifies the content: for small files the content itself, for big   *)
(* ones the hash part of the name under which it is stored.  In metadata   *)
(* there is also sl, the slot ("" for small files).                        *)
(***************************************************************************)
EXTENDS Config, FiniteSetsExt

NoMeta == [ex |-> FALSE, times |-> <<>>, paths |-> <<>>]
InlineMax == 20

------------------------------------------------------------------ (* hints *)
HNone == 0      HUnch == 1     HAdded == 2     HRemoved == 3   HWiped == 4
HRegLnk == 5    HRegDir == 6   HLnkReg == 7    HLnkDir == 8    HDirReg == 9
HDirLnk == 10   HOthReg == 11  HOthLnk == 12   HOthDir == 13
HOwner == 16    HPerm == 32    HTime == 64     HContent == 128 HFresh == 256
HPolicy == 512  HLoses == 1024

Has(h, bit) == (h \div bit) % 2 = 1
NoPol(h) == h % 512
SetHint(h, x) ==
  IF x <= HUnch THEN x
  ELSE IF x <= HOthDir THEN (h \div 512) * 512 + x
  ELSE LET b == IF x <= HFresh THEN (h \div 16) * 16 ELSE h
       IN  IF Has(b, x) THEN b ELSE b + x

------------------------------------------------------------------ (* nodes *)
\* Nodes during a backup: path -> [hint, pol, hist]; the current backup has
\* the id -1 in the history.
Cur == -1
NodesOf(meta) ==
  [p \in DOMAIN meta.paths |->
     [hint |-> HNone, pol |-> meta.paths[p].pol, hist |-> meta.paths[p].hist]]

Kids(nodes, p) == {q \in DOMAIN nodes : ParOf(q) = p}

\* What a backup records for a path found in the file system.
Rec(st) ==
  IF st.t = "reg"
  THEN [t |-> "reg", u |-> st.u, g |-> st.g, m |-> st.m, mt |-> st.mt, sz |-> st.sz,
        k |-> st.k, sl |-> IF st.sz > InlineMax THEN "?" ELSE ""]
  ELSE IF st.t = "lnk" THEN [t |-> "lnk", u |-> st.u, g |-> st.g, tg |-> st.tg]
  ELSE [t |-> "dir", u |-> st.u, g |-> st.g, m |-> st.m, mt |-> st.mt]
Non == [t |-> "non"]

-------------------------------------------------------- (* missing paths *)
RECURSIVE WipeRec(_, _)
WipeRec(nodes, p) ==
  LET n1 == IF NoPol(nodes[p].hint) = HWiped THEN nodes
            ELSE [nodes EXCEPT ![p].hint = SetHint(@, HWiped)]
  IN  FoldSet(LAMBDA q, ns : WipeRec(ns, q), n1, Kids(nodes, p))

RECURSIVE MarkRemoved(_, _, _)
MarkRemoved(nodes, p, extend) ==
  LET n == nodes[p]
      gone == n.hist[1].st.t = "non"
      ext == extend /\ (gone \/ n.pol = "track")
      n1 == IF gone THEN [n EXCEPT !.hint = SetHint(@, HUnch)]
            ELSE [n EXCEPT !.hint = SetHint(@, HRemoved),
                           !.hist = IF ext THEN <<[id |-> Cur, st |-> Non]>> \o @ ELSE @]
  IN  IF NoPol(n.hint) = HWiped THEN nodes
      ELSE FoldSet(LAMBDA q, ns : MarkRemoved(ns, q, ext), [nodes EXCEPT ![p] = n1],
                   Kids(nodes, p))

\* A change of policy.  Leaving the track policy drops the history.
SetPolicy(nodes, p, pol) ==
  LET n == nodes[p] IN
  IF n.pol = pol THEN nodes
  ELSE LET h1 == SetHint(n.hint, HPolicy)
           hist1 == IF n.pol = "track" /\ n.hist[1].st.t = "non" THEN Tail(n.hist) ELSE n.hist
           loses == n.pol = "track" /\ Len(hist1) > 1
           n1 == [hint |-> IF loses THEN SetHint(h1, HLoses) ELSE h1, pol |-> pol,
                  hist |-> IF n.pol = "track" THEN <<hist1[1]>> ELSE n.hist]
           ns1 == [nodes EXCEPT ![p] = n1]
       IN  IF n.pol = "track" /\ hist1[1].st.t # "dir"
           THEN FoldSet(LAMBDA q, ns : WipeRec(ns, q), ns1, Kids(nodes, p))
           ELSE ns1

HandleRemoved(nodes, p, pol) ==
  LET ns == SetPolicy(nodes, p, pol) IN
  IF pol = "mirror" THEN WipeRec(ns, p)
  ELSE IF pol = "none" /\ (Kids(ns, p) = {} \/ ns[p].hist[1].st.t # "dir")
       THEN WipeRec(ns, p)
  ELSE MarkRemoved(ns, p, TRUE)

\* The config entry for a path that does not exist anymore.
MatchMissing(cfg, m, name) ==
  LET ms == {j \in SubNodes(cfg, m) : NodeMatches(cfg, j, name)}
  IN  IF ms = {} THEN 0 ELSE CHOOSE j \in ms : \A i \in ms : i <= j

HandleMissing(cfg, nodes, p, m, pol) ==
  FoldSet(LAMBDA q, ns :
            IF ns[q].hint # HNone THEN ns
            ELSE LET j == MatchMissing(cfg, m, NmOf(q))
                 IN  IF j # 0 THEN HandleRemoved(ns, q, PolicyOf(cfg, j))
                     ELSE IF pol = "none" \/ Ignored(cfg, q) THEN WipeRec(ns, q)
                     ELSE HandleRemoved(ns, q, pol),
          nodes, Kids(nodes, p))

---------------------------------------------------------- (* found paths *)
TypeHint(old, new) ==
  CASE old = "reg" /\ new = "lnk" -> HRegLnk
    [] old = "reg" /\ new = "dir" -> HRegDir
    [] old = "lnk" /\ new = "reg" -> HLnkReg
    [] old = "lnk" /\ new = "dir" -> HLnkDir
    [] old = "dir" /\ new = "reg" -> HDirReg
    [] old = "dir" /\ new = "lnk" -> HDirLnk
    [] OTHER -> 0

\* Comparison with the recorded state: [hint, st].  The content is compared
\* only if the modification time differs, or the size.
Compare(hint, old, st) ==
  LET h1 == IF old.u # st.u \/ old.g # st.g THEN SetHint(hint, HOwner) ELSE hint IN
  IF old.t = "lnk" THEN
    [hint |-> IF old.tg # st.tg THEN SetHint(h1, HContent) ELSE h1, st |-> Rec(st)]
  ELSE
    LET h2 == IF old.m # st.m THEN SetHint(h1, HPerm) ELSE h1
        h3 == IF old.mt # st.mt THEN SetHint(h2, HTime) ELSE h2
    IN  IF old.t = "dir" THEN [hint |-> h3, st |-> Rec(st)]
        ELSE LET resized == old.sz # st.sz
                 rewritten == ~resized /\ old.mt # st.mt /\ st.sz > 0 /\ old.k # st.k
                 h4 == IF resized THEN SetHint(h3, HContent)
                       ELSE IF rewritten THEN SetHint(SetHint(h3, HContent), HFresh) ELSE h3
                 same == [Rec(st) EXCEPT !.k = old.k, !.sl = old.sl]
             IN  [hint |-> h4, st |-> IF resized \/ rewritten THEN Rec(st) ELSE same]

\* A path of the last backup which still exists, as a file of any type.
FoundNode(nodes, v) ==
  LET ns == SetPolicy(nodes, v.lp, v.pol)
      n == ns[v.lp]
      old == n.hist[1].st
      th == TypeHint(old.t, v.st.t)
      h1 == IF th # 0 THEN SetHint(n.hint, th) ELSE n.hint
      cmp == IF NoPol(h1) = HNone THEN Compare(h1, old, v.st)
             ELSE [hint |-> h1, st |-> IF v.pol # "none" \/ v.st.t = "dir" THEN Rec(v.st) ELSE old]
      changed == NoPol(cmp.hint) # HNone
  IN  IF v.pol # "track" THEN
        [ns EXCEPT ![v.lp] =
           [n EXCEPT !.hint = cmp.hint,
                     !.hist = <<[id |-> IF changed \/ v.pol = "none" THEN Cur ELSE @[1].id,
                                 st |-> cmp.st]>> \o Tail(@)]]
      ELSE IF old.t = "non" THEN
        [ns EXCEPT ![v.lp] = [n EXCEPT !.hint = SetHint(@, HAdded),
                                       !.hist = <<[id |-> Cur, st |-> Rec(v.st)]>> \o @]]
      ELSE
        [ns EXCEPT ![v.lp] =
           [n EXCEPT !.hint = cmp.hint,
                     !.hist = IF changed THEN <<[id |-> Cur, st |-> cmp.st]>> \o @ ELSE @]]

NewNode(v) == [hint |-> HAdded, pol |-> v.pol, hist |-> <<[id |-> Cur, st |-> Rec(v.st)]>>]

RECURSIVE FoundTree(_, _, _, _)
FoundTree(cfg, visited, nodes, v) ==
  LET p == v.lp
      \* new, or given up earlier in this backup and found again
      ns1 == IF p \notin DOMAIN nodes THEN nodes @@ (p :> NewNode(v))
             ELSE IF NoPol(nodes[p].hint) = HWiped THEN [nodes EXCEPT ![p] = NewNode(v)]
             ELSE FoundNode(nodes, v)
      below == {w \in visited : ParOf(w.lp) = p /\ w.st.t \in {"reg", "lnk", "dir"}}
      ns2 == IF v.st.t = "dir"
             THEN FoldSet(LAMBDA w, ns : FoundTree(cfg, visited, ns, w), ns1, below)
             ELSE ns1
      h == NoPol(ns2[p].hint)
      kids == Kids(ns2, p)
      ns3 == IF h \in {HDirReg, HDirLnk} THEN
               IF v.pol \in {"none", "track"}
               THEN FoldSet(LAMBDA q, ns : MarkRemoved(ns, q, v.pol = "track"), ns2, kids)
               ELSE FoldSet(LAMBDA q, ns : WipeRec(ns, q), ns2, kids)
             ELSE IF v.pol = "track" /\ ns2[p].hist[1].st.t = "reg"
               THEN FoldSet(LAMBDA q, ns : MarkRemoved(ns, q, FALSE), ns2, kids)
             ELSE HandleMissing(cfg, ns2, p, v.m, v.pol)
      ns4 == IF v.pol = "none" /\ \A q \in kids : NoPol(ns3[q].hint) = HWiped
             THEN IF NoPol(ns3[p].hint) = HWiped THEN ns3
                  ELSE [ns3 EXCEPT ![p].hint = SetHint(@, HWiped)]
             ELSE ns3
  IN  IF ns4[p].hint = HNone THEN [ns4 EXCEPT ![p].hint = HUnch] ELSE ns4

\* The nodes after comparing the metadata with the file system.
Initiate(cfg, visited, meta) ==
  LET n0 == NodesOf(meta)
      top == {w \in visited : ParOf(w.lp) = "" /\ w.st.t \in {"reg", "lnk", "dir"}}
      n1 == FoldSet(LAMBDA w, ns : FoundTree(cfg, visited, ns, w), n0, top)
  IN  HandleMissing(cfg, n1, "", 1, PolicyOf(cfg, 1))

-------------------------------------------------------- (* new metadata *)
RECURSIVE Preserved(_, _)
Preserved(nodes, p) ==
  \/ p = ""
  \/ p \in DOMAIN nodes /\ NoPol(nodes[p].hint) # HWiped /\ Preserved(nodes, ParOf(p))

\* The metadata written for the nodes: backups nobody refers to disappear.
Commit(nodes, times, now) ==
  LET kept == {p \in DOMAIN nodes : Preserved(nodes, p)}
      used == UNION {{nodes[p].hist[i].id : i \in 1..Len(nodes[p].hist)} : p \in kept}
      all == <<now>> \o times
      newtimes == LET idx == SelectSeq([i \in 1..Len(all) |-> i], LAMBDA i : (i - 2) \in used)
                  IN  [i \in 1..Len(idx) |-> all[idx[i]]]
      newid == [b \in used |-> Cardinality({c \in used : c < b})]
  IN  [ex |-> TRUE, times |-> newtimes,
       paths |-> [p \in kept |->
         [pol |-> nodes[p].pol,
          hist |-> [i \in 1..Len(nodes[p].hist) |->
                      [id |-> newid[nodes[p].hist[i].id], st |-> nodes[p].hist[i].st]]]]]
=============================================================================
