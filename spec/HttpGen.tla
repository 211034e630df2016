------------------------------- MODULE HttpGen -------------------------------
(* Schedules for the real code: how many messages, what the handler does with each, where (relative to a message) the peer goes
   away, whether the next message is sent before the answer to the last one.  Sizes and cuts are chosen by the harness. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, Modes, Bodies
VARIABLE s
Cuts == {"never", "start", "line", "header", "term", "preamble", "body0", "body1", "bodyhalf", "bodylast"}
Where(b) == IF b = "empty" THEN {"start", "line", "header", "term"} ELSE Cuts \ {"never"}
Init == s = [msgs |-> <<>>, cut |-> "never", pipe |-> FALSE, done |-> FALSE]
Next ==
  /\ ~s.done
  /\ \/ /\ Len(s.msgs) < N /\ \E m \in Modes, b \in Bodies : s' = [s EXCEPT !.msgs = Append(@, [mode |-> m, body |-> b])]
     \/ /\ Len(s.msgs) > 0
        /\ \E p \in BOOLEAN, c \in {"never"} \cup Where(s.msgs[Len(s.msgs)].body) : s' = [s EXCEPT !.done = TRUE, !.pipe = p, !.cut = c]
        /\ PrintT(<<"SCHED", ToJson(s')>>)
Spec == Init /\ [][Next]_s
=============================================================================
