------------------------------- MODULE HttpMC -------------------------------
(* The receiver of the implementation (a buffer, a preamble loop, a bounded body reader, draining) over every stream of short
   messages, every segmentation and every truncation *)
EXTENDS Http
CONSTANTS N, R, Chunk
VARIABLES ms, bodies, q, pos, lo, phase, k, have, log, out
vars == <<ms, bodies, q, pos, lo, phase, k, have, log, out>>
Term == <<"r", "n", "r", "n">>
Bodies == {<<>>, <<"b">>, <<"r", "n">>, Term, <<"n", "b", "b">>}
Heads == {<<"h">>, <<"h", "r">>}
RECURSIVE Stream(_, _)
Stream(bs, j) == IF j > Len(bs) THEN <<>> ELSE bs[j][1] \o Term \o bs[j][2] \o Stream(bs, j + 1)
Str == Stream(bodies, 1)
Found(a, b) == {j \in a + 4..b : \A x \in 1..4 : Str[j - 4 + x] = Term[x]}      \* ends of terminators in the bytes a+1..b
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Init ==
  /\ bodies \in UNION {[1..n -> Heads \X Bodies] : n \in 1..N}
  /\ \E modes \in [1..Len(bodies) -> {"all", "part", "none", "raise"}] :
       ms = [j \in 1..Len(bodies) |-> [pre |-> Len(bodies[j][1]) + 4, body |-> Len(bodies[j][2]), mode |-> modes[j]]]
  /\ q \in 0..Len(Stream(bodies, 1))
  /\ pos = 0 /\ lo = 0 /\ phase = "pre" /\ k = 1 /\ have = 0 /\ log = <<>> /\ out = 0
(* buffer: the bytes lo+1..pos of the stream *)
Recv(max) == \E n \in 1..max : pos + n <= q /\ pos' = pos + n
Eof == pos = q
Preamble ==
  /\ phase = "pre" /\ Found(lo, pos) = {}
  /\ \/ Recv(R) /\ UNCHANGED phase
     \/ Eof /\ phase' = "closed" /\ UNCHANGED pos
  /\ UNCHANGED <<ms, bodies, q, lo, k, have, log, out>>
Parsed ==
  /\ phase = "pre" /\ Found(lo, pos) # {}
  /\ LET e == Least(Found(lo, pos)) IN
     /\ lo' = e /\ log' = Append(log, <<lo, e>>)
     /\ phase' = IF ms[k].mode = "raise" THEN "closed" ELSE "body"
  /\ have' = 0 /\ UNCHANGED <<ms, bodies, q, pos, k, out>>
(* one read of the body: from the buffer, else from the socket, never more than what is left of the body *)
Body ==
  /\ phase = "body" /\ have < ms[k].body
  /\ LET left == ms[k].body - have  max == IF left < Chunk THEN left ELSE Chunk IN
     \/ /\ pos > lo /\ LET n == IF pos - lo < max THEN pos - lo ELSE max IN lo' = lo + n /\ have' = have + n
        /\ UNCHANGED <<pos, phase>>
     \/ /\ pos = lo /\ \E n \in 1..max : pos + n <= q /\ pos' = pos + n /\ lo' = lo + n /\ have' = have + n
        /\ UNCHANGED phase
     \/ /\ pos = lo /\ Eof /\ phase' = "closed" /\ UNCHANGED <<pos, lo, have>>
  /\ UNCHANGED <<ms, bodies, q, k, log, out>>
Answer ==
  /\ phase = "body" /\ have = ms[k].body
  /\ out' = out + 1 /\ phase' = (IF k = Len(ms) THEN "last" ELSE "pre") /\ k' = IF k = Len(ms) THEN k ELSE k + 1
  /\ UNCHANGED <<ms, bodies, q, pos, lo, have, log>>
Last == phase = "last" /\ pos = q /\ lo = pos /\ phase' = "closed" /\ UNCHANGED <<ms, bodies, q, pos, lo, k, have, log, out>>
Next == Preamble \/ Parsed \/ Body \/ Answer \/ Last
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Framed == \A j \in 1..Len(log) : log[j] = <<Start(ms, j), Start(ms, j) + ms[j].pre>>
NotMore == out <= Answered(ms, q) /\ Len(log) <= Begun(ms, q)
AtEnd == phase = "closed" => out = Answered(ms, q) /\ Len(log) = Begun(ms, q)
Ends == <>(phase = "closed")
=============================================================================
