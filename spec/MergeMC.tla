------------------------------ MODULE MergeMC ------------------------------
EXTENDS Merge, TLC, Json
CONSTANTS MaxContent
VARIABLES base, local, server, full
vars == <<base, local, server, full>>
C == 0..MaxContent
Init == base \in C /\ local = base /\ server = base /\ full \in BOOLEAN
Next == \/ local' \in C /\ UNCHANGED <<base, server, full>>
        \/ server' \in C /\ UNCHANGED <<base, local, full>>
Spec == Init /\ [][Next]_vars
Sound == ThreeWay(base, local, server, full)
Total == \A s, c \in Status : (s # "none" \/ c # "none") => Cat(s, c) \in Categories
=============================================================================
