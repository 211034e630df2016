------------------------------ MODULE WcLockGen ------------------------------
EXTENDS WcLock, Sequences, TLC, Json
CONSTANTS P, W, Depth
VARIABLES holder, path
Init == holder = [w \in W |-> {}] /\ path = <<>>
Busy(p) == \E w \in W : p \in holder[w]
Start(p, w) == /\ ~Busy(p) /\ path' = Append(path, <<"start", p, w>>)
               /\ holder' = IF Free(holder, w) THEN Started(holder, p, w) ELSE holder
End(p, how) == Busy(p) /\ path' = Append(path, <<how, p, "">>) /\ holder' = Gone(holder, p)
Next == /\ Len(path) < Depth
        /\ \/ \E p \in P, w \in W : Start(p, w)
           \/ \E p \in P, how \in {"finish", "kill", "lose"} : End(p, how)
Spec == Init /\ [][Next]_<<holder, path>>
PrintEnd == Len(path) >= Depth => PrintT(<<"SCHED", ToJson(path)>>)
=============================================================================
