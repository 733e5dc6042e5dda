------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What backup and restore tell the user about the pending changes         *)
(* (src/informations.c, src/nb.c), as output lines.                        *)
(***************************************************************************)
EXTENDS Backup

\* Amounts of data are [m: MiB, b: what is left over]; TLC's integers end at
\* 2^31.  Sizes that large are negative and stand for HugeOf(size).
CONSTANT HugeOf(_)
Sz0 == [m |-> 0, b |-> 0]
SzAdd(x, y) == LET t == x.b + y.b IN [m |-> x.m + y.m + t \div 1048576, b |-> t % 1048576]
SizeOf(n) == IF n >= 0 THEN [m |-> n \div 1048576, b |-> n % 1048576] ELSE HugeOf(n)

D0 == [n |-> 0, s |-> Sz0]
DAdd(a, b) == [n |-> a.n + b.n, s |-> SzAdd(a.s, b.s)]
Sum0 == [new |-> D0, rem |-> D0, lost |-> D0, chg |-> D0, attr |-> 0, other |-> FALSE, apt |-> FALSE]
\* adds everything but apt, which is about direct children only
SumAdd(a, b) == [new |-> DAdd(a.new, b.new), rem |-> DAdd(a.rem, b.rem),
                 lost |-> DAdd(a.lost, b.lost), chg |-> DAdd(a.chg, b.chg),
                 attr |-> a.attr + b.attr, other |-> a.other \/ b.other, apt |-> a.apt]
ContentChanges(s) == s.new.n > 0 \/ s.rem.n > 0 \/ s.lost.n > 0 \/ s.chg.n > 0
ContainsChanges(s) == ContentChanges(s) \/ s.attr > 0 \/ s.other

Existing(n) == IF n.hist[1].st.t = "non" /\ Len(n.hist) > 1 THEN n.hist[2].st ELSE n.hist[1].st

One(n) == [n |-> 1, s |-> LET st == Existing(n) IN IF st.t = "reg" THEN SizeOf(st.sz) ELSE Sz0]
ExtraAttrs(h) == (IF Has(h, HOwner) THEN 1 ELSE 0) + (IF Has(h, HPerm) THEN 1 ELSE 0)

\* Only attributes of a parent that is not selected itself.
UnselectedAttrs(n) == n.pol = "none" /\ n.hint >= HOwner /\ n.hint < HContent

AddNode(s, n, timeBySubnodes) ==
  LET h == NoPol(n.hint) IN
  IF h = HAdded THEN [s EXCEPT !.new = DAdd(@, One(n)), !.apt = TRUE]
  ELSE IF h = HRemoved THEN [s EXCEPT !.rem = DAdd(@, One(n)), !.apt = TRUE]
  ELSE IF h = HWiped THEN
    [s EXCEPT !.lost = DAdd(@, One(n)),
              !.apt = @ \/ (n.pol = "mirror" /\ ~Has(n.hint, HPolicy))]
  ELSE IF Has(h, HContent) THEN
    [s EXCEPT !.chg = DAdd(@, One(n)), !.apt = TRUE, !.attr = @ + ExtraAttrs(h)]
  ELSE IF n.hint > HUnch /\ ~UnselectedAttrs(n) THEN
    [s EXCEPT !.other = TRUE, !.apt = @ \/ (h >= HRegLnk /\ h <= HOthDir),
              !.attr = @ + ExtraAttrs(n.hint)
                         + (IF n.hint = HTime /\ ~timeBySubnodes THEN 1 ELSE 0)]
  ELSE s

\* The largest unit in which the value is at most 999.9, one digit cut off.
Size(z) ==
  LET tenths(n, unit) == LET t == n \div unit IN ToString(t \div 10) \o "." \o ToString(t % 10)
      kib == (z.b * 10) \div 1024
      \* tenths of MiB, rounded down and up
      mib == z.m * 10 + (z.b * 10) \div 1048576
      up == z.m * 10 + (z.b * 10 + 1048575) \div 1048576
  IN  IF z.m = 0 /\ z.b < 1000 THEN ToString(z.b) \o " b"
      ELSE IF z.m = 0 /\ z.b * 10 <= 9999 * 1024 THEN tenths(kib, 1) \o " KiB"
      ELSE IF up <= 9999 THEN tenths(mib, 1) \o " MiB"
      ELSE IF up <= 9999 * 1024 THEN tenths(mib, 1024) \o " GiB"
      ELSE tenths(mib, 1048576) \o " TiB"

Detail(d, prefix) ==
  (IF d.n > 0 THEN prefix ELSE "") \o ToString(d.n) \o " item" \o (IF d.n = 1 THEN "" ELSE "s")
  \o (IF d.s # Sz0 THEN ", " \o prefix \o Size(d.s) ELSE "")

RECURSIVE Commas(_)
Commas(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o ", " \o Commas(Tail(ss))
Opt(cond, s) == IF cond THEN <<s>> ELSE <<>>

TypeText == <<"File -> Symlink", "File -> Directory", "Symlink -> File", "Symlink -> Directory",
              "Directory -> File", "Directory -> Symlink", "Other -> File", "Other -> Symlink",
              "Other -> Directory">>

\* The line about one path.  sp encodes a space (lines are %-encoded).
Line(p, n, s, summarize) ==
  LET h == NoPol(n.hint)
      ex == Existing(n)
      name == (IF ex.t = "lnk" THEN "^" ELSE "") \o p \o (IF ex.t = "dir" THEN "/" ELSE "")
      typed == h >= HRegLnk /\ h <= HOthDir
      mark == IF h = HAdded THEN "++ " ELSE IF h = HRemoved THEN "-- "
              ELSE IF h = HWiped THEN (IF n.pol = "mirror" THEN "xx " ELSE "?? ")
              ELSE IF typed THEN "<> " ELSE IF Has(h, HContent) THEN "!! "
              ELSE IF summarize /\ ContentChanges(s) THEN "!! "
              ELSE IF h # HNone THEN "@@ " ELSE ":: "
      dots == IF h \in {HAdded, HRemoved, HWiped} \/ typed \/ Has(h, HContent) THEN ""
              ELSE IF summarize /\ ContentChanges(s) THEN "..."
              ELSE IF h # HNone /\ summarize /\ s.attr > 0 THEN "..." ELSE ""
      del == DAdd(s.rem, s.lost)
      items == Opt(typed, TypeText[IF typed THEN h - 4 ELSE 1])
            \o Opt(Has(n.hint, HOwner), "owner")
            \o Opt(Has(n.hint, HPerm), "permissions")
            \o Opt(n.hist[1].st.t # "lnk" /\ Has(n.hint, HTime) # Has(n.hint, HContent) /\ ~s.apt,
                   (IF Has(n.hint, HTime) THEN "" ELSE "same ") \o "timestamp")
            \o Opt(Has(n.hint, HPolicy), "policy changed")
            \o Opt(Has(n.hint, HLoses), "looses history")
            \o (IF ex.t = "dir" THEN
                  IF h \in {HAdded, HRegDir, HLnkDir} THEN <<Detail(s.new, "+")>>
                  ELSE IF h = HRemoved THEN <<Detail(s.rem, "-")>>
                  ELSE IF h = HWiped THEN <<Detail(s.lost, "-")>>
                  ELSE IF summarize THEN
                         Opt(s.new.n > 0, Detail(s.new, "+")) \o Opt(del.n > 0, Detail(del, "-"))
                      \o Opt(s.chg.n > 0, ToString(s.chg.n) \o " changed")
                      \o Opt(s.attr > 0, ToString(s.attr) \o " metadata change"
                                         \o (IF s.attr = 1 THEN "" ELSE "s"))
                  ELSE <<>>
                ELSE IF h \in {HDirReg, HDirLnk} THEN <<Detail(del, "-")>> ELSE <<>>)
  IN  mark \o name \o dots \o (IF items = <<>> THEN "" ELSE " (" \o Commas(items) \o ")")
      \o (IF ex.t = "lnk" THEN " -> " \o ex.tg ELSE "")

\* [s, l]: totals and lines for the children of a path.
RECURSIVE Walk(_, _, _, _, _)
Walk(cfg, nodes, p, sumOn, print) ==
  FoldSet(LAMBDA q, a :
    LET n == nodes[q]
        summarize == sumOn /\ n.pol # "none" /\ Existing(n).t = "dir" /\ Summarized(cfg, q)
        down == sumOn /\ ~summarize
        shown == print /\ ~summarize /\ n.hint > HUnch
                 /\ ~(n.pol = "none" /\ n.hint = HAdded) /\ ~UnselectedAttrs(n)
        subprint == IF print /\ summarize THEN FALSE
                    ELSE IF shown THEN NoPol(n.hint) > HOthDir ELSE print
        sub == Walk(cfg, nodes, q, down, subprint)
        own == IF print /\ summarize
               THEN Opt(n.hint > HUnch \/ ContainsChanges(sub.s), Line(q, n, sub.s, TRUE))
               ELSE Opt(shown /\ ~(n.hint = HTime /\ sub.s.apt), Line(q, n, sub.s, FALSE))
    IN  [s |-> SumAdd(AddNode(a.s, n, sub.s.apt), sub.s), l |-> a.l \o own \o sub.l],
    [s |-> Sum0, l |-> <<>>], Kids(nodes, p))

Report(cfg, nodes, withSummaries) == Walk(cfg, nodes, "", withSummaries, TRUE)

Totals(s) ==
  LET part(d, name) == Opt(d.n > 0, name \o ": " \o ToString(d.n) \o " (" \o Size(d.s) \o ")")
      parts == part(s.new, "New") \o part(s.rem, "Removed") \o part(s.lost, "Lost")
  IN  IF parts = <<>> THEN <<>> ELSE <<Commas(parts), "">>

---------------------------------------------------------------- (* consent *)
\* Input is a sequence of characters ("%0A" a newline).  Answers consumes
\* lines until one of them decides.
LineEnds == {"%0A", "%0D", "%00"}
RECURSIVE LineLen(_, _)
LineLen(s, i) == IF i > Len(s) \/ s[i] \in LineEnds THEN i - 1 ELSE LineLen(s, i + 1)

RECURSIVE Consent(_, _)
Consent(input, asked) ==
  IF input = <<>> THEN [ok |-> FALSE, asked |-> asked + 1]
  ELSE LET n == LineLen(input, 1)
           line == Str(SubSeq(input, 1, n))
           rest == SubSeq(input, n + 2, Len(input))
       IN  IF line \in {"y", "yes"} THEN [ok |-> TRUE, asked |-> asked + 1]
           ELSE IF line \in {"n", "no"} THEN [ok |-> FALSE, asked |-> asked + 1]
           ELSE Consent(rest, asked + 1)

Questions(text, n) == [i \in 1..n |-> text \o " (y/n) "]
=============================================================================
