-------------------------------- MODULE Paths --------------------------------
(* What a server has to do with paths and identifiers which come from outside.  Texts are sequences of code points. *)
EXTENDS Naturals, Sequences, FiniteSets
Slash == 47  Backslash == 92  Dot == 46
HexDigits == 48..57 \cup 97..102
(* components of a text between separators *)
RECURSIVE SplitAt(_, _, _, _)
SplitAt(p, k, cur, seps) == IF k > Len(p) THEN <<cur>>
                            ELSE IF p[k] \in seps THEN <<cur>> \o SplitAt(p, k + 1, <<>>, seps)
                            ELSE SplitAt(p, k + 1, Append(cur, p[k]), seps)
Components(p, seps) == SplitAt(p, 1, <<>>, seps)
DotNames == {<<Dot>>, <<Dot, Dot>>}
(* an uploaded path with such a component is refused *)
Hostile(p) == LET cs == Components(p, {Slash, Backslash}) IN \E k \in 1..Len(cs) : cs[k] \in DotNames
Rooted(p) == Len(p) > 1 /\ p[1] = Slash
(* ordinary paths, which have to be accepted *)
Ordinary(p) == /\ Rooted(p) /\ ~Hostile(p) /\ 0 \notin {p[k] : k \in 1..Len(p)}
               /\ LET cs == Components(p, {Slash}) IN \A k \in 2..Len(cs) : cs[k] # <<>>
Parts(p) == SelectSeq(Components(p, {Slash}), LAMBDA c : c # <<>>)
IsHash(s) == Len(s) = 64 /\ \A k \in 1..64 : s[k] \in HexDigits
PlainHex(s) == \A k \in 1..Len(s) : s[k] \in HexDigits

(* how an operating system walks down a path from a directory at depth d: the least depth on the way *)
RECURSIVE Lowest(_, _, _, _)
Lowest(cs, k, d, m) == IF k > Len(cs) THEN m
                       ELSE LET e == IF cs[k] = <<Dot, Dot>> THEN d - 1 ELSE IF cs[k] \in {<<>>, <<Dot>>} THEN d ELSE d + 1
                            IN IF e = 0 THEN 0 ELSE Lowest(cs, k + 1, e, IF e < m THEN e ELSE m)
Inside(p, seps) == Lowest(Components(p, seps), 1, 1, 1) >= 1          \* never above the directory itself (depth 1)

(* requests: tree: the files of the head, pend: those of the commit in progress *)
Put(s, p, c) == {f \in s : f[1] # p} \cup {<<p, c>>}
Without(s, ps) == {f \in s : f[1] \notin ps}
=============================================================================
