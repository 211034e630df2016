------------------------------- MODULE PathsMC -------------------------------
(* The guards are enough: over all short texts, what is not refused stays inside, whatever the separators of the system are; and
   identifiers which are plain hexadecimal name an object below the directory of the objects. *)
EXTENDS Paths
CONSTANTS N
VARIABLES p, kind
A == {Slash, Backslash, Dot, 97, 103}
Init == kind \in {"path", "ident"} /\ p = <<>>
Next == Len(p) < N /\ \E a \in A : p' = Append(p, a) /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<p, kind>>
Guard == kind = "path" /\ ~Hostile(p) => Inside(p, {Slash}) /\ Inside(p, {Slash, Backslash})
(* the object of an identifier: its first two characters name a directory, the others the file *)
Take2(s) == SubSeq(s, 1, IF Len(s) < 2 THEN Len(s) ELSE 2)
Drop2(s) == SubSeq(s, 3, Len(s))
Object == Take2(p) \o <<Slash>> \o Drop2(p)
Ident == kind = "ident" /\ PlainHex(p) /\ Len(p) > 2 => Inside(Object, {Slash}) /\ Len(Parts(Object)) = 2
(* the guards are needed: there are texts which escape *)
RefusesOnlyDots == kind = "path" /\ (\A k \in 1..Len(p) : p[k] # Dot) => ~Hostile(p)
=============================================================================
