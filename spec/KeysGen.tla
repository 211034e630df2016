------------------------------- MODULE KeysGen -------------------------------
(* all dialogues of up to two answers and up to two pairs of passwords, each with all later unlock attempts; the driver names passwords *)
EXTENDS Keys, TLC, Json
CONSTANTS P
VARIABLE k
SeqsTo(S, n) == UNION {[1..j -> S] : j \in 0..n}
Ans == {a \in SeqsTo({"y", "n", "other"}, 3) : a # <<>> /\ a[Len(a)] # "other" /\ \A j \in 1..Len(a) - 1 : a[j] = "other"}
Giv(a) == IF ~Protected(a) THEN {<<>>} ELSE {g \in SeqsTo(1..P, 4) : Chosen(g) # <<>> /\ Chosen(SubSeq(g, 1, Len(g) - 2)) = <<>> /\ Len(g) % 2 = 0}
Init == k = 0
Next == k = 0 /\ k' = 1 /\ \A a \in Ans : \A g \in Giv(a) : PrintT(<<"SCHED", ToJson([answers |-> a, given |-> g])>>)
Spec == Init /\ [][Next]_k
=============================================================================
