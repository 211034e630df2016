------------------------------ MODULE KeysTrace ------------------------------
(* Total trace specification: a trace is the life of one key: generated, unlocked with several passwords, used. *)
EXTENDS Keys, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, n, pw
Ev == Traces[t].ev[i]
Wrong(e) ==
  CASE e.op = "generate" ->
         (IF e.k # "ok" THEN {<<"generate", e.info>>} ELSE {})
         \cup (IF e.leak # "" THEN {<<"leak", e.leak>>} ELSE {})
         \cup (IF e.k = "ok" /\ e.prompts # (IF Protected(e.answers) THEN Len(e.given) ELSE 0) THEN {<<"prompts", ToString(e.prompts)>>} ELSE {})
    [] e.op \in {"unlock", "checkout", "use"} ->
         (IF e.k # Unlock(pw, e.pw) THEN {<<IF e.k = "key" THEN "opened" ELSE IF e.k = "refused" THEN "not_opened" ELSE "wrong_key", ToString(<<e.op, e.info>>)>>} ELSE {})
         \cup (IF e.leak # "" THEN {<<"leak", e.leak>>} ELSE {})
         \cup (IF e.prompts # Asked(pw) THEN {<<"prompts", ToString(e.prompts)>>} ELSE {})
    [] OTHER -> {<<"machinery", e.info>>}
Report(e) == \A w \in Wrong(e) : PrintT(<<"VIOL", ToJson([t |-> t, i |-> i, clause |-> w[1], info |-> w[2]])>>)
TraceInit == t = 1 /\ i = 1 /\ n = 0 /\ pw = <<>>
TraceNext ==
  \/ /\ t <= Len(Traces) /\ i <= Len(Traces[t].ev) /\ Report(Ev)
     /\ pw' = IF Ev.op = "generate" THEN Stored(Ev.answers, Ev.given) ELSE pw
     /\ i' = i + 1 /\ n' = n + 1 /\ t' = t
  \/ /\ t <= Len(Traces) /\ i > Len(Traces[t].ev)
     /\ t' = t + 1 /\ i' = 1 /\ n' = n /\ pw' = <<>>
     /\ (t = Len(Traces) => PrintT(<<"DONE", ToJson([traces |-> t, events |-> n])>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i, n, pw>>
=============================================================================
