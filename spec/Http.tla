-------------------------------- MODULE Http --------------------------------
(* Messages on a persistent connection.  A message is [pre: length of the preamble, body: length of the body, mode: what the
   handler does]; the peer goes away after q bytes (or never: q is the length of the stream).
   mode "raise": the handler fails, the connection ends; mode "bad": it is no request (nothing is said about what follows, but that
   the connection ends with the peer).  All other handlers answer, whatever they read of the body. *)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Start(_, _)
Start(ms, k) == IF k = 1 THEN 0 ELSE Start(ms, k - 1) + ms[k - 1].pre + ms[k - 1].body
HeadIn(ms, k, q) == Start(ms, k) + ms[k].pre <= q
Whole(ms, k, q) == HeadIn(ms, k, q) /\ Start(ms, k) + ms[k].pre + ms[k].body <= q
(* number of messages which are answered: whole, and so were all before *)
RECURSIVE AnsweredFrom(_, _, _)
AnsweredFrom(ms, k, q) == IF k > Len(ms) \/ ~Whole(ms, k, q) \/ ms[k].mode \in {"raise", "bad"} THEN k - 1 ELSE AnsweredFrom(ms, k + 1, q)
Answered(ms, q) == AnsweredFrom(ms, 1, q)
(* the one after may reach the handler: if its preamble is in *)
Begun(ms, q) == LET a == Answered(ms, q) IN IF a < Len(ms) /\ HeadIn(ms, a + 1, q) /\ ms[a + 1].mode # "bad" THEN a + 1 ELSE a
Reads(m) == m.mode \in {"all", "chunks", "json"}
(* what the handler of message k sees of its body: everything or an error; those which do not read all of it see no error unless
   the part they read is missing *)
Sees(ms, k, q) == IF Whole(ms, k, q) THEN {"ok"} ELSE IF Reads(ms[k]) THEN {"cut"} ELSE {"ok", "cut"}
(* a message which is none was reached *)
Spoilt(ms, q) == LET a == Answered(ms, q) IN a < Len(ms) /\ ms[a + 1].mode = "bad"
=============================================================================
