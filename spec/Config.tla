------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The configuration language of nano-backup (nb.1, src/search-tree.c) and *)
(* the selection of paths it induces (src/search.c).                       *)
(*                                                                         *)
(* A config file is a sequence of lines, a line a sequence of characters   *)
(* (one-character strings, or "%XX" for unprintable bytes).  Parse turns   *)
(* it into a tree of nodes; Search computes what a backup visits.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS
  RxOk(_),        \* does a regular expression compile
  RxMatch(_, _),  \* does a regular expression match a string
  Follow(_, _),   \* path to which the symlink at a path with a target leads ("?" if unknown)
  ParOf(_),       \* parent of a path, "" for top level paths
  NmOf(_)         \* last element of a path

Str(s) == FoldLeft(LAMBDA a, b: a \o b, "", s)

Join(dir, name) == dir \o "/" \o name

------------------------------------------------------------- (* parsing *)
Blank(line) == \A i \in 1..Len(line) : line[i] \in {" ", "%09"}

RECURSIVE StripSlashes(_)
StripSlashes(s) ==
  IF s # <<>> /\ s[Len(s)] = "/" THEN StripSlashes(SubSeq(s, 1, Len(s) - 1)) ELSE s

RECURSIVE LastSlash(_, _)
LastSlash(s, i) == IF i = 0 THEN 0 ELSE IF s[i] = "/" THEN i ELSE LastSlash(s, i - 1)
RECURSIVE FirstOfGroup(_, _)
FirstOfGroup(s, i) == IF i > 1 /\ s[i - 1] = "/" THEN FirstOfGroup(s, i - 1) ELSE i

\* "/home/foo///bar" -> ["/home/foo", "//bar"]
SplitPath(s) ==
  LET at == FirstOfGroup(s, LastSlash(s, Len(s)))
  IN  IF at = 0 THEN [head |-> <<>>, tail |-> s]
      ELSE [head |-> SubSeq(s, 1, at - 1), tail |-> SubSeq(s, at + 1, Len(s))]

RECURSIVE HasDotElement(_)
HasDotElement(s) ==
  LET sp == SplitPath(s)
  IN  \/ sp.tail \in { <<".">>, <<".", ".">> }
      \/ sp.head # <<>> /\ HasDotElement(sp.head)

\* A node: path as written, index of its parent, name or expression,
\* explicit policy ("" if it has none of its own).  Node 1 is the root.
RootNode == [p |-> <<>>, par |-> 0, nm |-> "/", rx |-> FALSE, ex |-> "", ln |-> 0, exln |-> 0]
Acc0 == [err |-> "", cur |-> "none", nodes |-> <<RootNode>>, ign |-> <<>>, sum |-> <<>>, ln |-> 0,
         badre |-> "", again |-> [ex |-> "", ln |-> 0]]

IndexOf(nodes, path) ==
  LET S == {i \in 1..Len(nodes) : nodes[i].p = path}
  IN  IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

\* Creates the node for path, and missing parents first.
RECURSIVE EnsureNode(_, _)
EnsureNode(acc, path) ==
  IF acc.err # "" \/ IndexOf(acc.nodes, path) # 0 THEN acc
  ELSE LET sp == SplitPath(path)
           a1 == EnsureNode(acc, sp.head)
           rx == Len(sp.tail) >= 2 /\ sp.tail[1] = "/"
           nm == IF rx THEN Str(Tail(sp.tail)) ELSE Str(sp.tail)
       IN  IF a1.err # "" THEN a1
           ELSE IF rx /\ ~RxOk(nm) THEN [a1 EXCEPT !.err = "regex", !.badre = nm]
           ELSE [a1 EXCEPT !.nodes = Append(@,
                   [p |-> path, par |-> IndexOf(a1.nodes, sp.head), nm |-> nm,
                    rx |-> rx, ex |-> "", ln |-> acc.ln, exln |-> 0])]

Tokens == [x \in {"[copy]", "[mirror]", "[track]", "[ignore]", "[summarize]"} |->
             CASE x = "[copy]" -> "copy" [] x = "[mirror]" -> "mirror"
               [] x = "[track]" -> "track" [] x = "[ignore]" -> "ignore"
               [] x = "[summarize]" -> "summarize"]

ParseLine(acc0, line) ==
  LET acc == [acc0 EXCEPT !.ln = @ + 1] IN
  IF acc0.err # "" THEN acc0
  ELSE IF Blank(line) \/ line[1] = "#" THEN acc
  ELSE IF Str(line) \in DOMAIN Tokens THEN [acc EXCEPT !.cur = Tokens[Str(line)]]
  ELSE IF line[1] = "[" /\ line[Len(line)] = "]" THEN [acc EXCEPT !.err = "policy"]
  ELSE IF acc.cur = "none" THEN [acc EXCEPT !.err = "pattern without policy"]
  ELSE IF acc.cur \in {"ignore", "summarize"} THEN
    LET re == Str(line) IN
    IF ~RxOk(re) THEN [acc EXCEPT !.err = "regex", !.badre = re]
    ELSE IF acc.cur = "ignore" THEN [acc EXCEPT !.ign = Append(@, [re |-> re, ln |-> acc.ln])]
    ELSE [acc EXCEPT !.sum = Append(@, [re |-> re, ln |-> acc.ln])]
  ELSE IF line[1] # "/" THEN [acc EXCEPT !.err = "invalid path"]
  ELSE IF HasDotElement(line) THEN [acc EXCEPT !.err = "dot element"]
  ELSE LET path == StripSlashes(line)
           old == IndexOf(acc.nodes, path)
       IN  IF old # 0 /\ acc.nodes[old].ex # "" 
           THEN [acc EXCEPT !.err = "redefinition", !.again = [ex |-> acc.nodes[old].ex, ln |-> acc.nodes[old].exln]]
           ELSE LET a1 == EnsureNode(acc, path)
                IN  IF a1.err # "" THEN a1
                    ELSE LET k == IndexOf(a1.nodes, path)
                         IN  [a1 EXCEPT !.nodes[k].ex = acc.cur, !.nodes[k].exln = acc.ln]

\* A UTF-8 byte order mark at the start is skipped; NUL bytes are an error.
SkipBom(lines) ==
  IF lines # <<>> /\ Len(lines[1]) >= 3 /\ SubSeq(lines[1], 1, 3) = <<"%EF", "%BB", "%BF">>
  THEN <<SubSeq(lines[1], 4, Len(lines[1]))>> \o Tail(lines)
  ELSE lines

HasNul(lines) == \E i \in 1..Len(lines) : \E j \in 1..Len(lines[i]) : lines[i][j] = "%00"

Parse(lines) ==
  IF HasNul(lines) THEN [Acc0 EXCEPT !.err = "null bytes"]
  ELSE FoldLeft(ParseLine, Acc0, SkipBom(lines))

---------------------------------------------------------- (* config tree *)
\* The policy of a node is its own, or else that of its nearest ancestor
\* which has one of its own.
RECURSIVE PolicyOf(_, _)
PolicyOf(cfg, i) ==
  IF i = 0 THEN "none"
  ELSE IF cfg.nodes[i].ex # "" THEN cfg.nodes[i].ex
  ELSE PolicyOf(cfg, cfg.nodes[i].par)

SubNodes(cfg, i) == IF i = 0 THEN {} ELSE {j \in 1..Len(cfg.nodes) : cfg.nodes[j].par = i}

NodeMatches(cfg, i, name) ==
  IF cfg.nodes[i].rx THEN RxMatch(cfg.nodes[i].nm, name) ELSE cfg.nodes[i].nm = name

Ignored(cfg, path) == \E i \in 1..Len(cfg.ign) : RxMatch(cfg.ign[i].re, path)
Summarized(cfg, path) == \E i \in 1..Len(cfg.sum) : RxMatch(cfg.sum[i].re, path)

----------------------------------------------------------- (* file system *)
\* A file system maps canonical paths to states.
ChildrenIn(fs, dir) == {q \in DOMAIN fs : ParOf(q) = dir}

\* Canonical path of the directory (or file) which the path leads to when all
\* symlinks are followed; "" is the root, "?" an error.
RECURSIVE Resolve(_, _, _)
Resolve(fs, path, fuel) ==
  IF path = "" THEN ""
  ELSE LET d == Resolve(fs, ParOf(path), fuel)
           c == Join(d, NmOf(path))
       IN  IF d = "?" \/ fuel = 0 THEN "?"
           ELSE IF c \notin DOMAIN fs THEN "?"
           ELSE IF fs[c].t = "lnk"
                THEN LET tp == Follow(c, fs[c].tg)
                     IN  IF tp = "?" THEN "?" ELSE Resolve(fs, tp, fuel - 1)
                ELSE c

\* Canonical path of the directory entry (the last element is not followed).
Locate(fs, path) ==
  LET d == Resolve(fs, ParOf(path), 8) IN IF d = "?" THEN "?" ELSE Join(d, NmOf(path))

\* Canonical paths of the symlinks which are followed on the way.
RECURSIVE Via(_, _, _)
Via(fs, path, fuel) ==
  IF path = "" \/ fuel = 0 THEN {}
  ELSE LET d == Resolve(fs, ParOf(path), fuel)
           c == Join(d, NmOf(path))
           up == Via(fs, ParOf(path), fuel)
       IN  IF d = "?" \/ c \notin DOMAIN fs \/ fs[c].t # "lnk" THEN up
           ELSE LET tp == Follow(c, fs[c].tg)
                IN  up \cup {c} \cup (IF tp = "?" THEN {} ELSE Via(fs, tp, fuel - 1))

------------------------------------------------------------ (* searching *)
\* Visited paths: set of [lp, cp, pol, m, st]; lp is the path as seen by the
\* user, cp the canonical one, m the config node (0: none; that of the
\* directory for ambiguous paths).  An error is a
\* record whose state type is "ERR".
Error(lp, why, m) == [lp |-> lp, cp |-> "?", pol |-> "none", m |-> m, st |-> [t |-> "ERR", why |-> why]]

RECURSIVE VisitDir(_, _, _, _, _, _), Visit(_, _, _, _, _, _)
Visit(cfg, fs, lp, cp, m, pol) ==
  LET follow == m # 0 /\ SubNodes(cfg, m) # {} /\ fs[cp].t = "lnk"
      rp == IF follow THEN Resolve(fs, cp, 8) ELSE cp
  IN  IF rp = "?" THEN {Error(lp, "dangling", m)}
      ELSE {[lp |-> lp, cp |-> rp, pol |-> pol, m |-> m, st |-> fs[rp]]}
           \cup (IF fs[rp].t = "dir" THEN VisitDir(cfg, fs, lp, rp, m, pol) ELSE {})

VisitDir(cfg, fs, lp, cp, m, pol) ==
  LET subs == SubNodes(cfg, m)
      kids == ChildrenIn(fs, cp)
      direct == m # 0 /\ pol = "none" /\ \A j \in subs : ~cfg.nodes[j].rx
  IN  IF direct THEN
        \* only the named paths are accessed, the directory is not read
        UNION { LET c == Join(cp, cfg.nodes[j].nm)
                IN  IF c \in kids
                    THEN Visit(cfg, fs, Join(lp, cfg.nodes[j].nm), c, j, PolicyOf(cfg, j))
                    ELSE {}
                : j \in subs }
      ELSE
        UNION { LET name == NmOf(c)
                    full == Join(lp, name)
                    ms == {j \in subs : NodeMatches(cfg, j, name)}
                IN  IF Cardinality(ms) > 1 THEN {Error(full, "ambiguous", m)}
                    ELSE IF Cardinality(ms) = 1 THEN
                      LET j == CHOOSE j \in ms : TRUE
                      IN  Visit(cfg, fs, full, c, j, PolicyOf(cfg, j))
                    ELSE IF pol = "none" THEN {}
                    ELSE IF Ignored(cfg, full) THEN {}
                    ELSE Visit(cfg, fs, full, c, 0, pol)
                : c \in kids }

Search(cfg, fs) == VisitDir(cfg, fs, "", "", 1, PolicyOf(cfg, 1))

SearchFails(visited) == \E v \in visited : v.st.t = "ERR"

\* The paths a backup records: everything visited but other file types.
Selected(visited) ==
  LET S == {v \in visited : v.st.t \in {"reg", "lnk", "dir"}}
  IN  [p \in {v.lp : v \in S} |-> CHOOSE v \in S : v.lp = p]
=============================================================================
