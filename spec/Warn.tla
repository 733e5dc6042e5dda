--------------------------------- MODULE Warn ---------------------------------
(***************************************************************************)
(* What a backup tells on stderr about its configuration: which lines had  *)
(* no effect, and which line is to blame when it is rejected               *)
(* (src/informations.c, src/search-tree.c, src/search.c).                  *)
(***************************************************************************)
EXTENDS Report

Q(s) == "%22" \o s \o "%22"
AtLine(n) == "config: line " \o ToString(n) \o ": "
NbError(s) == "nb: error: " \o s

\* Types of the files which matched a node of the configuration.
Matched(visited, j) == {v.st.t : v \in {v \in visited : v.m = j}}

RECURSIVE NodeWarnings(_, _, _)
NodeWarnings(cfg, visited, i) ==
  LET one(j) ==
        LET n == cfg.nodes[j]
            subs == SubNodes(cfg, j) # {}
            kind == IF n.rx THEN "regex" ELSE "string"
            ts == Matched(visited, j)
            say(what) == <<AtLine(n.ln) \o kind \o what \o Q(n.nm)>>
        IN  IF ts = {} THEN say(" never matched a " \o (IF subs THEN "directory: " ELSE "file: "))
            ELSE IF ~subs THEN <<>>
            ELSE IF "dir" \notin ts THEN say(" matches, but not a directory: ")
            ELSE (IF ts # {"dir"} THEN say(" matches not only directories: ") ELSE <<>>)
                 \o NodeWarnings(cfg, visited, j)
  IN  FoldSet(LAMBDA j, a : a \o one(j), <<>>, SubNodes(cfg, i))

\* Of several expressions matching one path the last one counts.
LastMatch(list, s) ==
  LET S == {k \in 1..Len(list) : RxMatch(list[k].re, s)}
  IN  IF S = {} THEN {} ELSE {CHOOSE k \in S : \A l \in S : l <= k}

\* Paths which are left out because an expression says so.
IgnoredPaths(cfg, fs, visited) ==
  LET root == [lp |-> "", cp |-> "", m |-> 1, pol |-> PolicyOf(cfg, 1), st |-> [t |-> "dir"]]
  IN  UNION {{Join(v.lp, NmOf(c)) :
                c \in {c \in ChildrenIn(fs, v.cp) :
                         /\ \A j \in SubNodes(cfg, v.m) : ~NodeMatches(cfg, j, NmOf(c))
                         /\ Ignored(cfg, Join(v.lp, NmOf(c)))}}
             : v \in {v \in visited \cup {root} : v.st.t = "dir" /\ v.pol # "none"}}

\* Directories which are reported on one line.
RECURSIVE SummarizedPaths(_, _, _)
SummarizedPaths(cfg, nodes, p) ==
  UNION {IF nodes[q].pol # "none" /\ Existing(nodes[q]).t = "dir" /\ Summarized(cfg, q)
         THEN {q} ELSE SummarizedPaths(cfg, nodes, q) : q \in Kids(nodes, p)}

Useless(list, paths, what) ==
  LET used == UNION {LastMatch(list, p) : p \in paths}
  IN  FoldLeft(LAMBDA a, k : IF k \in used THEN a
                             ELSE Append(a, AtLine(list[k].ln) \o "regex never matched a " \o what \o ": "
                                            \o Q(list[k].re)),
               <<>>, [k \in 1..Len(list) |-> k])

Warnings(cfg, fs, visited, nodes) ==
  NodeWarnings(cfg, visited, 1)
  \o Useless(cfg.ign, IgnoredPaths(cfg, fs, visited), "path")
  \o Useless(cfg.sum, SummarizedPaths(cfg, nodes, ""), "directory")

\* The last line about a rejected configuration: [head, tail], with the
\* explanation of an invalid expression in between.
Blame(lines, cfg) ==
  LET n == cfg.ln
      line == Str((SkipBom(lines))[n])
      whole(s) == [head |-> NbError(s), tail |-> ""]
  IN  IF cfg.err = "null bytes" THEN whole("config: contains null-bytes")
      ELSE CASE cfg.err = "policy" -> whole(AtLine(n) \o "invalid policy: "
                                            \o Q(Str(SubSeq((SkipBom(lines))[n], 2, Len((SkipBom(lines))[n]) - 1))))
             [] cfg.err = "pattern without policy" -> whole(AtLine(n) \o "pattern without policy: " \o Q(line))
             [] cfg.err = "invalid path" -> whole(AtLine(n) \o "invalid path: " \o Q(line))
             [] cfg.err = "dot element" -> whole(AtLine(n) \o "path contains %22.%22 or %22..%22: " \o Q(line))
             [] cfg.err = "redefinition" ->
                  whole(AtLine(n) \o "redefining " \o (IF cfg.again.ex # cfg.cur THEN "policy of " ELSE "")
                        \o "line " \o ToString(cfg.again.ln) \o ": " \o Q(line))
             [] cfg.err = "regex" -> [head |-> NbError(AtLine(n)), tail |-> ": " \o Q(cfg.badre)]

Begins(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
Ends(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

Blames(s, b) == IF b.tail = "" THEN s = b.head ELSE Begins(s, b.head) /\ Ends(s, b.tail)

\* A search fails because of one of the paths which cannot be searched.
Explained(cfg, visited, told) ==
  \E v \in {v \in visited : v.st.t = "ERR"} :
    /\ told # <<>>
    /\ LET last == told[Len(told)] IN
       IF v.st.why = "ambiguous"
       THEN LET rule(j) == AtLine(cfg.nodes[j].ln) \o (IF cfg.nodes[j].rx THEN "regex " ELSE "string ")
                           \o Q(cfg.nodes[j].nm) \o " matches " \o Q(NmOf(v.lp))
                rules == {j \in SubNodes(cfg, v.m) : NodeMatches(cfg, j, NmOf(v.lp))}
            IN  /\ last = NbError("ambiguous rules for path: " \o Q(v.lp))
                /\ Len(told) = 3
                /\ \E j \in rules, k \in rules : j # k /\ told[1] = rule(j) /\ told[2] = rule(k)
       ELSE Begins(last, NbError("failed to access " \o Q(v.lp) \o ": "))
===============================================================================
