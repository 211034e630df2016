------------------------------ MODULE DetectMC ------------------------------
(* a user at work on a few files: the report is empty exactly if nothing was done, and names what was done *)
EXTENDS Detect
CONSTANTS N, T, Lines
VARIABLES disk, man, ign, pign
vars == <<disk, man, ign, pign>>
Names == {<<47, 97>>, <<47, 98>>, <<47, 97, 47, 98>>, <<47, 91>>}
Use == IF N = 2 THEN {<<47, 97>>, <<47, 97, 47, 98>>} ELSE Names
Rules == {<<>>} \cup {<<l>> : l \in {<<47, 97>>, <<42>>, <<47, 63>>, <<47, 91, 97, 93>>, <<47, 91, 33, 97, 93>>, <<47, 91>>, <<47, 97, 45, 99>>, <<47, 91, 97, 45, 99, 93, 42>>}}
Init == disk = {} /\ man = {} /\ ign = <<>> /\ pign = <<>>
Next ==
  \/ \E p \in Use, t \in 1..T : disk' = {e \in disk : e[1] # p} \cup {<<p, t>>} /\ UNCHANGED <<man, ign, pign>>
  \/ \E p \in Use : disk' = {e \in disk : e[1] # p} /\ UNCHANGED <<man, ign, pign>>
  \/ man' = {e \in disk : ~Ignored(ign, pign, e[1])} \cup {} /\ UNCHANGED <<disk, ign, pign>>       \* everything was committed
  \/ Lines /\ ign' \in Rules /\ UNCHANGED <<disk, man, pign>>
  \/ Lines /\ pign' \in Rules /\ UNCHANGED <<disk, man, ign>>
Spec == Init /\ [][Next]_vars
R(incl) == Expected(disk, man, ign, pign, incl)
Once == \A x, y \in R(TRUE) : x[1] = y[1] => x = y
Clean == R(FALSE) = {} <=> {e \in disk : ~Ignored(ign, pign, e[1])} = {e \in man : ~Pulled(pign, e[1])}
Superset == R(FALSE) \subseteq R(TRUE) /\ \A e \in R(TRUE) \ R(FALSE) : e[2] = "unchanged"
Undone == \A e \in R(FALSE) : (e[2] # "deleted" => ~Ignored(ign, pign, e[1]) /\ At(disk, e[1]) # {}) /\ (e[2] = "deleted" => At(man, e[1]) # {})
Pulls == \A e \in R(TRUE) : ~Pulled(pign, e[1])
Told == [][man' # man => Expected(disk', man', ign', pign', FALSE) = {}]_vars
(* laws of the wildcards, for all short names and filters *)
A == {STAR, QM, OPEN, CLOSE, BANG, 97, 98}
Strs(n) == UNION {[1..k -> {97, 98, OPEN}] : k \in 0..n}
Pats(n) == UNION {[1..k -> A] : k \in 0..n}
Plain(f) == \A k \in 1..Len(f) : f[k] \notin {STAR, QM, OPEN}
ASSUME \A s \in Strs(2) : Matches(<<STAR>>, s) /\ (Matches(<<QM>>, s) <=> Len(s) = 1) /\ (Matches(<<>>, s) <=> s = <<>>)
ASSUME \A f \in Pats(3), s \in Strs(2) : Plain(f) => (Matches(f, s) <=> f = s)
ASSUME \A f \in Pats(2), s \in Strs(2) : Matches(f \o <<STAR>>, s) <=> \E k \in 0..Len(s) : Matches(f, SubSeq(s, 1, k))
ASSUME \A c \in {97, 98, OPEN}, d \in {97, 98, OPEN} : (Matches(<<OPEN, c, CLOSE>>, <<d>>) <=> c = d) /\ (Matches(<<OPEN, BANG, c, CLOSE>>, <<d>>) <=> c # d)
=============================================================================
