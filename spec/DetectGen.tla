------------------------------ MODULE DetectGen ------------------------------
(* every state of N paths: time on disk and time in the manifest (0: none), and whether a rule is to match it; and wildcard patterns *)
EXTENDS Detect, TLC, Json
CONSTANTS N, T, L
VARIABLE k
One == (0..T) \X (0..T) \X {"", "ign", "pign"}
A == <<STAR, QM, OPEN, CLOSE, BANG, MINUS, 97, 98, 99, 47>>
Init == k = 0
States == k = 0 /\ k' = 1 /\ \A f \in [1..N -> One] : PrintT(<<"SCHED", ToJson([i \in 1..N |-> f[i]])>>)
Pats == k = 1 /\ k' = 2 /\ \A n \in 1..L : \A f \in [1..n -> 1..Len(A)] : PrintT(<<"PAT", ToJson([i \in 1..n |-> A[f[i]]])>>)
Next == States \/ Pats
Spec == Init /\ [][Next]_k
=============================================================================
