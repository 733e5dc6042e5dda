----------------------------- MODULE MetaFormat -----------------------------
(***************************************************************************)
(* The format of a metadata file, as a sequence of bytes.                  *)
(*                                                                         *)
(*   file    = u64 n, n * i64 (completion times), history (of the config   *)
(*             file, unused), u64 (number of paths, a hint), paths         *)
(*   paths   = u64 n, n * path                                             *)
(*   path    = u64 length, name, u8 policy, history, paths                 *)
(*   history = u64 n, n * point                                            *)
(*   point   = u64 backup id, u8 type, state                               *)
(*                                                                         *)
(* All numbers are little endian.  Parsing yields a position or, for an    *)
(* ill-formed file, a negative number saying what is wrong first.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Truncated == -1
BadId == -2
BadType == -3
NoHistory == -4
BadName == -5
BadPolicy == -6
Trailing == -7

Why(e) == CASE e = Truncated -> "truncated" [] e = BadId -> "backup id" [] e = BadType -> "state type"
            [] e = NoHistory -> "path without history" [] e = BadName -> "path name"
            [] e = BadPolicy -> "policy" [] e = Trailing -> "trailing bytes" [] OTHER -> ""

Huge == 1073741824
\* The number at position i of d; everything too large to be a length is Huge.
U64(d, i) ==
  IF d[i + 4] # 0 \/ d[i + 5] # 0 \/ d[i + 6] # 0 \/ d[i + 7] # 0 \/ d[i + 3] >= 64 THEN Huge
  ELSE d[i] + 256 * (d[i + 1] + 256 * (d[i + 2] + 256 * d[i + 3]))

\* n more bytes from position i
Left(d, i, n) == n <= Len(d) - i + 1

DotName(d, i, n) == (n = 1 /\ d[i] = 46) \/ (n = 2 /\ d[i] = 46 /\ d[i + 1] = 46)
NameOk(d, i, n) == n > 0 /\ ~DotName(d, i, n) /\ \A j \in i..(i + n - 1) : d[j] # 0 /\ d[j] # 47

HashSize == 20

PointEnd(d, i, nb) ==
  IF ~Left(d, i, 8) THEN Truncated
  ELSE IF U64(d, i) >= nb THEN BadId
  ELSE IF ~Left(d, i, 9) THEN Truncated
  ELSE LET t == d[i + 8]
           a == i + 9
           b == a + 8 \* after owner and group
       IN  CASE t = 0 -> a
             [] t = 1 -> IF ~Left(d, b, 20) THEN Truncated
                         ELSE LET sz == U64(d, b + 12)
                                  n == IF sz > HashSize THEN HashSize + 1 ELSE sz
                              IN  IF ~Left(d, b + 20, n) THEN Truncated ELSE b + 20 + n
             [] t = 2 -> IF ~Left(d, b, 8) THEN Truncated
                         ELSE LET n == U64(d, b) IN
                              IF ~Left(d, b + 8, n) THEN Truncated ELSE b + 8 + n
             [] t = 3 -> IF ~Left(d, b, 12) THEN Truncated ELSE b + 12
             [] OTHER -> IF ~Left(d, b, 0) THEN Truncated ELSE BadType

RECURSIVE PointsEnd(_, _, _, _)
PointsEnd(d, i, c, nb) ==
  IF c = 0 THEN i
  ELSE LET j == PointEnd(d, i, nb) IN IF j < 0 THEN j ELSE PointsEnd(d, j, c - 1, nb)

\* least: the smallest number of states allowed
HistoryEnd(d, i, nb, least) ==
  IF ~Left(d, i, 8) THEN Truncated
  ELSE LET c == U64(d, i) IN
       IF c < least THEN NoHistory
       ELSE PointsEnd(d, i + 8, c, nb)

RECURSIVE PathsEnd(_, _, _), SomePathsEnd(_, _, _, _)
PathsEnd(d, i, nb) ==
  IF ~Left(d, i, 8) THEN Truncated ELSE SomePathsEnd(d, i + 8, U64(d, i), nb)
SomePathsEnd(d, i, c, nb) ==
  IF c = 0 THEN i
  ELSE IF ~Left(d, i, 8) THEN Truncated
  ELSE LET n == U64(d, i) IN
       IF ~Left(d, i + 8, n) THEN Truncated
       ELSE IF ~NameOk(d, i + 8, n) THEN BadName
       ELSE IF ~Left(d, i + 8 + n, 1) THEN Truncated
       ELSE IF d[i + 8 + n] > 3 THEN BadPolicy
       ELSE LET h == HistoryEnd(d, i + 9 + n, nb, 1) IN
            IF h < 0 THEN h
            ELSE LET s == PathsEnd(d, h, nb) IN
                 IF s < 0 THEN s ELSE SomePathsEnd(d, s, c - 1, nb)

\* 0 for a well-formed file
Verdict(d) ==
  IF ~Left(d, 1, 8) THEN Truncated
  ELSE LET n == U64(d, 1) IN
       IF n > Len(d) \div 8 \/ ~Left(d, 9, 8 * n) THEN Truncated
       ELSE LET c == HistoryEnd(d, 9 + 8 * n, n, 0) IN
            IF c < 0 THEN c
            ELSE IF ~Left(d, c, 8) THEN Truncated
            ELSE LET p == PathsEnd(d, c + 8, n) IN
                 IF p < 0 THEN p
                 ELSE IF p # Len(d) + 1 THEN Trailing ELSE 0
=============================================================================
