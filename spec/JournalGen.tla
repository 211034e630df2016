----------------------------- MODULE JournalGen -----------------------------
(* Sequences of transactions for the real code: every step is chosen among all, with more of those which work *)
EXTENDS Journal, TLC, Json
CONSTANTS P, D, X, Depth, MaxSteps, BadOne
VARIABLES f, cur, sched
vars == <<f, cur, sched>>
StepsOf == {[o |-> "put", p |-> p, q |-> "", x |-> x] : p \in P \cup D, x \in X}
      \cup {[o |-> "move", p |-> p, q |-> q, x |-> ""] : p \in P, q \in P \cup D}
      \cup {[o |-> "del", p |-> p, q |-> "", x |-> ""] : p \in P}
      \cup {[o |-> "bad", p |-> p, q |-> "", x |-> ""] : p \in P}
Init == f = {} /\ cur = <<>> /\ sched = <<>>
Add == /\ Len(cur) < MaxSteps /\ Len(sched) < Depth
       /\ \E st \in StepsOf : /\ st.o = "move" => st.p # st.q
                              /\ CanDo(Run(f, D, cur)[1], D, st) \/ RandomElement(1..BadOne) = 1
                              /\ cur' = Append(cur, st)
       /\ UNCHANGED <<f, sched>>
End == /\ cur # <<>>
       /\ \E how \in {"commit", "rollback"}, lv \in {"jfs", "ds"} :
            /\ how = "rollback" => lv = "jfs" /\ RandomElement(1..3) = 1
            /\ lv = "ds" => Len(cur) = 1
            /\ sched' = Append(sched, [level |-> lv, steps |-> cur, end |-> how])
            /\ f' = IF how = "commit" /\ Run(f, D, cur)[2] = Len(cur) THEN Run(f, D, cur)[1] ELSE f
       /\ cur' = <<>>
Next == Add \/ End
Spec == Init /\ [][Next]_vars
PrintEnd == Len(sched) = Depth => PrintT(<<"SCHED", ToJson(sched)>>)
=============================================================================
