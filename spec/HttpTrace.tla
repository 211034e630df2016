------------------------------ MODULE HttpTrace ------------------------------
(* Total trace specification: a trace is one connection.
   op "stream": the messages a client sends to the real server, q bytes of them arrive, how the client leaves (half: it still reads
     the responses, hard: it resets, deaf: it stops reading the response number deaf)
   op "calls": the responses a server sends to the real client, one for each call *)
EXTENDS Http, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, n, st
Ev == Traces[t].ev[i]
None == [op |-> "none", ms |-> <<>>, q |-> 0, leave |-> "half", req |-> 0, rsp |-> 0]
Begin(e) == [op |-> e.op, ms |-> e.ms, q |-> e.q, leave |-> e.leave, req |-> 0, rsp |-> 0]
NAns(s) == Answered(s.ms, s.q)
Wrong(s, e) ==
  CASE e.op \in {"stream", "calls"} -> {}
    [] e.op = "req" ->                            \* a request reached the handler
         IF s.req + 1 > Begun(s.ms, s.q) /\ Spoilt(s.ms, s.q) THEN {}
         ELSE IF s.req + 1 > Begun(s.ms, s.q) THEN {<<"treated_complete", ToString(<<s.req + 1, e.info>>)>>}
         ELSE (IF e.id # s.req + 1 THEN {<<"order", ToString(<<e.id, s.req + 1>>)>>} ELSE {})
              \cup (IF e.head # "ok" THEN {<<"request_head", e.head>>} ELSE {})
              \cup (IF e.body \notin Sees(s.ms, s.req + 1, s.q) /\ ~(s.leave # "half" /\ e.body = "cut") THEN {<<"request_body", e.info>>} ELSE {})
    [] e.op = "rsp" ->                            \* a whole response reached the client
         IF s.rsp + 1 > NAns(s) /\ Spoilt(s.ms, s.q) THEN {}
         ELSE IF s.rsp + 1 > NAns(s) THEN {<<"treated_complete", ToString(<<"answer", s.rsp + 1>>)>>}
         ELSE IF e.r # "ok" THEN {<<"response", e.r>>} ELSE {}
    [] e.op = "end" ->
         (IF e.hang # "" THEN {<<"does_not_end", e.hang>>} ELSE {})
         \cup (IF e.shut = 0 THEN {<<"not_released", e.info>>} ELSE {})
         \cup (IF e.more # 0 /\ ~Spoilt(s.ms, s.q) THEN {<<"response", "bytes after the last response">>} ELSE {})
         \cup (IF s.op = "stream" /\ s.leave = "half" /\ (s.rsp < NAns(s) \/ s.req < Begun(s.ms, s.q))
                 THEN {<<"lost", ToString(<<s.req, s.rsp, e.info>>)>>} ELSE {})
    [] e.op = "call" ->                           \* the client made a call
         LET k == s.rsp + 1  whole == k <= NAns(s) IN
         (IF e.sent # "ok" THEN {<<"request_sent", e.sent>>} ELSE {})
         \cup (IF whole /\ e.r # "ok" THEN {<<"response", ToString(<<k, e.r>>)>>} ELSE {})
         \cup (IF ~whole /\ e.r # "error" THEN {<<"treated_complete", ToString(<<k, e.r>>)>>} ELSE {})
    [] e.op = "hang" -> {<<"does_not_end", e.info>>}
    [] e.op = "lock" ->                           \* a connection with a commit lock is gone: is another one let in?
         IF e.r # "ok" THEN {<<"not_released", ToString(<<e.r, e.info>>)>>} ELSE {}
    [] OTHER -> {<<"machinery", e.op>>}
Step(s, e) ==
  CASE e.op \in {"stream", "calls"} -> Begin(e)
    [] e.op = "req" -> [s EXCEPT !.req = @ + 1]
    [] e.op \in {"rsp", "call"} -> [s EXCEPT !.rsp = @ + 1]
    [] OTHER -> s
Report(e) == \A w \in Wrong(st, e) : PrintT(<<"VIOL", ToJson([t |-> t, i |-> i, clause |-> w[1], info |-> w[2]])>>)
TraceInit == t = 1 /\ i = 1 /\ n = 0 /\ st = None
TraceNext ==
  \/ /\ t <= Len(Traces) /\ i <= Len(Traces[t].ev) /\ Report(Ev)
     /\ st' = Step(st, Ev) /\ i' = i + 1 /\ n' = n + 1 /\ t' = t
  \/ /\ t <= Len(Traces) /\ i > Len(Traces[t].ev)
     /\ t' = t + 1 /\ i' = 1 /\ n' = n /\ st' = None
     /\ (t = Len(Traces) => PrintT(<<"DONE", ToJson([traces |-> t, events |-> n])>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i, n, st>>
=============================================================================
