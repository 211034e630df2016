----------------------------- MODULE DetectTrace -----------------------------
(* Total trace specification: each event is one look of the client for local changes. *)
EXTENDS Detect, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, n
Ev == Traces[t].ev[i]
Range(q) == {q[j] : j \in 1..Len(q)}
Wrong(e) ==
  LET want == Expected(Range(e.disk), Range(e.man), e.ign, e.pign, e.incl) got == Range(e.got)
  IN (IF e.raised # "" THEN {<<"raised", e.raised>>} ELSE {})
     \cup {<<"missed", ToString(x)>> : x \in {w \in want : w[1] \notin PathsOf(got)}}
     \cup {<<"invented", ToString(x)>> : x \in {g \in got : g[1] \notin PathsOf(want)}}
     \cup {<<"wrong_status", ToString(x)>> : x \in {g \in got : g[1] \in PathsOf(want) /\ g \notin want}}
     \cup (IF Len(e.got) # Cardinality(got) THEN {<<"twice", "">>} ELSE {})
     \cup (IF e.touched THEN {<<"working_copy_modified", "">>} ELSE {})
Report(e) == \A w \in Wrong(e) : PrintT(<<"VIOL", ToJson([t |-> t, i |-> i, clause |-> w[1], info |-> w[2]])>>)
TraceInit == t = 1 /\ i = 1 /\ n = 0
TraceNext ==
  \/ /\ t <= Len(Traces) /\ i <= Len(Traces[t].ev) /\ Report(Ev)
     /\ i' = i + 1 /\ n' = n + 1 /\ t' = t
  \/ /\ t <= Len(Traces) /\ i > Len(Traces[t].ev)
     /\ t' = t + 1 /\ i' = 1 /\ n' = n
     /\ (t = Len(Traces) => PrintT(<<"DONE", ToJson([traces |-> t, events |-> n])>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i, n>>
=============================================================================
