------------------------------- MODULE KeysMC -------------------------------
(* somebody who sees everything which is stored tries passwords *)
EXTENDS Keys
CONSTANTS Passwords, Users, MaxPrompt
VARIABLES stored, knows, secret, seen
vars == <<stored, knows, secret, seen>>
Answers == {"y", "n", "other"}
Init == stored = [u \in Users |-> <<"none">>] /\ knows = {} /\ secret = [u \in Users |-> ""] /\ seen = {}
SeqsTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Generate(u) == \E a \in SeqsTo(Answers, 2), g \in SeqsTo(Passwords, MaxPrompt) :
   /\ \E k \in 1..Len(a) : a[k] # "other"
   /\ (Protected(a) => Chosen(g) # <<>>)
   /\ stored' = [stored EXCEPT ![u] = <<"key", Stored(a, g)>>]
   /\ secret' = [secret EXCEPT ![u] = IF Protected(a) THEN Chosen(g)[1] ELSE ""]
   /\ knows' = knows \ {u} /\ UNCHANGED seen
Learn(p) == seen' = seen \cup {p} /\ UNCHANGED <<stored, knows, secret>>                \* a password becomes known to the attacker
Try(u) == stored[u][1] = "key" /\ \E p \in seen : Unlock(stored[u][2], p) = "key" /\ knows' = knows \cup {u} /\ UNCHANGED <<stored, secret, seen>>
Next == (\E u \in Users : (stored[u][1] = "none" /\ Generate(u)) \/ Try(u)) \/ \E p \in Passwords : Learn(p)
Spec == Init /\ [][Next]_vars
OnlyWithPassword == \A u \in knows : stored[u][2] = <<>> \/ secret[u] \in seen
OwnerCan == \A u \in Users : stored[u][1] = "key" => Unlock(stored[u][2], secret[u]) = "key"
TypeOK == \A u \in Users : stored[u][1] = "key" => Len(stored[u][2]) \in {0, 1}
=============================================================================
