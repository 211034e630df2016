------------------------------ MODULE PathsTrace ------------------------------
(* Total trace specification: requests of a logged in user with paths and identifiers of all kinds; out: what was touched outside of
   the repository during the request *)
EXTENDS Paths, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, n, st
Ev == Traces[t].ev[i]
Start == [tree |-> {}, pend |-> {}, loose |-> FALSE]
Outside(e) == IF e.out # <<>> THEN {<<"outside", ToString(e.out)>>} ELSE {}
Same(f, p) == Parts(f) = Parts(p)
Pairs(x) == {<<x[k][1], x[k][2]>> : k \in 1..Len(x)}
Wrong(s, e) == Outside(e) \cup
  CASE e.op = "push" ->
         (IF Hostile(e.p) /\ e.r = "ok" THEN {<<"accepted", e.info>>} ELSE {})
         \cup (IF Ordinary(e.p) /\ e.r # "ok" THEN {<<"not_accepted", e.info>>} ELSE {})
    [] e.op = "pull" ->
         IF \E f \in s.tree : f[1] = e.p
         THEN IF Ordinary(e.p) /\ (e.r # "ok" \/ <<e.p, e.c>> \notin s.tree) THEN {<<"not_served", ToString(<<e.r, e.c, e.info>>)>>}
              ELSE IF e.r = "ok" /\ <<e.p, e.c>> \notin s.tree THEN {<<"served", ToString(<<e.c, e.info>>)>>} ELSE {}
         ELSE IF e.r = "ok" /\ ~(\E f \in s.tree : Same(f[1], e.p) /\ f[2] = e.c) THEN {<<"served", ToString(<<e.c, e.info>>)>>} ELSE {}
    [] e.op = "ident" ->
         IF e.r = "ok" /\ ~(IsHash(e.id) /\ e.known) THEN {<<"identifier", ToString(<<e.what, e.info>>)>>}
         ELSE IF e.r # "ok" /\ e.known THEN {<<"not_served", ToString(<<e.what, e.r>>)>>} ELSE {}
    [] e.op = "files" -> IF Pairs(e.files) # s.tree THEN {<<"effect", ToString(<<"listed", e.info>>)>>} ELSE {}
    [] e.op = "around" -> IF e.changed # <<>> THEN {<<"outside", ToString(e.changed)>>} ELSE {}
    [] e.op = "commit" -> IF e.r # "ok" THEN {<<"commit", e.info>>} ELSE {}
    [] e.op \in {"begin", "abort", "delete", "repo", "resume"} -> IF e.op = "repo" /\ e.r = "ok" THEN {<<"repository", e.info>>} ELSE IF e.op = "begin" /\ e.r # "ok" THEN {<<"begin", e.info>>} ELSE {}
    [] e.op = "hang" -> {<<"hang", e.info>>}
    [] OTHER -> {<<"machinery", e.op>>}
Step(s, e) ==
  CASE e.op = "begin" -> [s EXCEPT !.pend = s.tree]
    [] e.op = "push" /\ e.r = "ok" -> IF e.stay THEN [s EXCEPT !.pend = Put(@, e.p, e.c)] ELSE s
    [] e.op = "delete" /\ e.r = "ok" -> [s EXCEPT !.pend = Without(@, {e.p})]
    [] e.op = "commit" /\ e.r = "ok" -> [s EXCEPT !.tree = s.pend]
    [] e.op = "abort" -> [s EXCEPT !.pend = s.tree]
    [] OTHER -> s
Report(e) == \A w \in Wrong(st, e) : PrintT(<<"VIOL", ToJson([t |-> t, i |-> i, clause |-> w[1], info |-> w[2]])>>)
TraceInit == t = 1 /\ i = 1 /\ n = 0 /\ st = Start
TraceNext ==
  \/ /\ t <= Len(Traces) /\ i <= Len(Traces[t].ev) /\ Report(Ev)
     /\ st' = Step(st, Ev) /\ i' = i + 1 /\ n' = n + 1 /\ t' = t
  \/ /\ t <= Len(Traces) /\ i > Len(Traces[t].ev)
     /\ t' = t + 1 /\ i' = 1 /\ n' = n /\ st' = Start
     /\ (t = Len(Traces) => PrintT(<<"DONE", ToJson([traces |-> t, events |-> n])>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i, n, st>>
=============================================================================
