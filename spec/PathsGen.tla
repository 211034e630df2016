------------------------------- MODULE PathsGen -------------------------------
(* All sequences of kinds of components and separators up to N *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, Kinds
VARIABLE s
Init == \E l \in {"slash", "back", "none"}, k \in Kinds : s = [lead |-> l, comps |-> <<k>>, seps |-> <<>>] /\ PrintT(<<"SCHED", ToJson(s)>>)
Next == Len(s.comps) < N /\ \E k \in Kinds, x \in {"slash", "back"} :
          /\ s' = [s EXCEPT !.comps = Append(@, k), !.seps = Append(@, x)]
          /\ PrintT(<<"SCHED", ToJson(s')>>)
Spec == Init /\ [][Next]_s
=============================================================================
