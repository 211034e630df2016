------------------------------- MODULE WcLock -------------------------------
(* Which process may use which working copy.  holder[w]: the processes operating on w. *)
EXTENDS Naturals, FiniteSets
Free(holder, w) == holder[w] = {}
Started(holder, p, w) == [holder EXCEPT ![w] = @ \cup {p}]
Gone(holder, p) == [w \in DOMAIN holder |-> holder[w] \ {p}]
AtMostOne(holder) == \A w \in DOMAIN holder : Cardinality(holder[w]) <= 1
=============================================================================
