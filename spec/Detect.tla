------------------------------- MODULE Detect -------------------------------
(* Which files count as local changes.  Names and filters are sequences of code points. *)
EXTENDS Naturals, Sequences, FiniteSets

STAR == 42 QM == 63 OPEN == 91 CLOSE == 93 BANG == 33 MINUS == 45

(* the end of the bracket expression which begins at i (0: it is not closed).  A ] right after [ or [! is a member *)
RECURSIVE CloseAt(_, _)
CloseAt(f, i) == IF i > Len(f) THEN 0 ELSE IF f[i] = CLOSE THEN i ELSE CloseAt(f, i + 1)
Ends(f, i) ==
  LET j == IF i + 1 <= Len(f) /\ f[i + 1] = BANG THEN i + 2 ELSE i + 1
      k == IF j <= Len(f) /\ f[j] = CLOSE THEN j + 1 ELSE j
  IN CloseAt(f, k)
(* is c among the characters and ranges f[i..j] *)
RECURSIVE Member(_, _, _, _)
Member(f, i, j, c) ==
  IF i > j THEN FALSE
  ELSE IF i + 2 <= j /\ f[i + 1] = MINUS THEN (f[i] <= c /\ c <= f[i + 2]) \/ Member(f, i + 3, j, c)
  ELSE f[i] = c \/ Member(f, i + 1, j, c)
(* shell wildcards; a star also matches slashes, and the whole name has to match *)
RECURSIVE Glob(_, _, _, _)
Glob(f, i, s, k) ==
  IF i > Len(f) THEN k > Len(s)
  ELSE CASE f[i] = STAR -> Glob(f, i + 1, s, k) \/ (k <= Len(s) /\ Glob(f, i, s, k + 1))
         [] f[i] = QM -> k <= Len(s) /\ Glob(f, i + 1, s, k + 1)
         [] f[i] = OPEN /\ Ends(f, i) # 0 ->
              LET e == Ends(f, i) neg == f[i + 1] = BANG IN
              k <= Len(s) /\ (Member(f, IF neg THEN i + 2 ELSE i + 1, e - 1, s[k]) # neg) /\ Glob(f, e + 1, s, k + 1)
         [] OTHER -> k <= Len(s) /\ f[i] = s[k] /\ Glob(f, i + 1, s, k + 1)
Matches(f, s) == Glob(f, 1, s, 1)
MatchesAny(fs, s) == \E j \in 1..Len(fs) : Matches(fs[j], s)

(* disk and man: sets of <<path, time>>; ign, pign: the lines of the rule files *)
At(S, p) == {e[2] : e \in {x \in S : x[1] = p}}
Pulled(pign, p) == MatchesAny(pign, p)                       \* not part of this working copy at all
Ignored(ign, pign, p) == MatchesAny(ign, p) \/ Pulled(pign, p)
StatusOf(disk, man, ign, pign, p) ==
  LET d == IF Ignored(ign, pign, p) THEN {} ELSE At(disk, p)
      m == IF Pulled(pign, p) THEN {} ELSE At(man, p)
  IN CASE d = {} /\ m = {} -> "none"
       [] m = {} -> "new"
       [] d = {} -> "deleted"
       [] d = m  -> "unchanged"
       [] OTHER  -> "changed"
PathsOf(S) == {e[1] : e \in S}
Expected(disk, man, ign, pign, incl) ==
  {x \in {<<p, StatusOf(disk, man, ign, pign, p)>> : p \in PathsOf(disk) \cup PathsOf(man)} :
     x[2] # "none" /\ (incl \/ x[2] # "unchanged")}
=============================================================================
