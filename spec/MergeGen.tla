------------------------------ MODULE MergeGen ------------------------------
(* every combination of statuses of NP paths *)
EXTENDS Merge, TLC, Json
CONSTANTS NP
VARIABLE k
Combos == [1..NP -> Status \X Status]
Init == k = 0
Next == k = 0 /\ k' = 1 /\ \A f \in Combos : PrintT(<<"SCHED", ToJson([i \in 1..NP |-> f[i]])>>)
Spec == Init /\ [][Next]_k
=============================================================================
