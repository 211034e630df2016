----------------------------- MODULE WcLockTrace -----------------------------
(* Total trace specification.  start: p uses w; k: held (it is in the middle of its work now), done (it has ended by itself);
went: it did something (a request, a result).  end: it was let go, killed or lost its connection. *)
EXTENDS WcLock, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, n, holder, auths, bad
vars == <<t, i, n, holder, auths, bad>>
Ev == Traces[t].ev[i]
W == {"w1", "w2"}
Wrong(e) ==
  CASE e.op = "start" /\ ~Free(holder, e.w) ->
         (IF e.k = "held" THEN {<<"two_at_once", e.cmd>>}
          ELSE (IF e.went \/ e.ok THEN {<<"not_refused", e.cmd>>} ELSE {}))
         \cup (IF e.changed # "" THEN {<<"changed_before_refused", e.changed>>} ELSE {})
         \cup (IF e.hang THEN {<<"hang", e.cmd>>} ELSE {})
    [] e.op = "start" /\ Free(holder, e.w) ->
         (IF e.k = "done" /\ ~e.went /\ ~e.ok THEN {<<"not_admitted", e.cmd \o ": " \o e.msg>>} ELSE {})
         \cup (IF e.hang THEN {<<"hang", e.cmd>>} ELSE {})
    [] e.op = "end" -> (IF e.hang THEN {<<"hang", e.cmd>>} ELSE {}) \cup (IF e.k = "finish" /\ ~e.ok THEN {<<"disturbed", e.cmd \o ": " \o e.msg>>} ELSE {})
    [] e.op = "final" -> (IF e.auths > auths THEN {<<"refused_after_request", ToString(e.auths - auths)>>} ELSE {})
                          \cup (IF e.msg # "" THEN {<<"left_behind", e.msg>>} ELSE {})
    [] OTHER -> {<<"unknown_event", e.op>>}
Report(e) == \A w \in Wrong(e) : PrintT(<<"VIOL", ToJson([t |-> t, i |-> i, clause |-> w[1], info |-> w[2]])>>)
TraceInit == t = 1 /\ i = 1 /\ n = 0 /\ holder = [w \in W |-> {}] /\ auths = 0 /\ bad = FALSE
TraceNext ==
  \/ /\ t <= Len(Traces) /\ i <= Len(Traces[t].ev)
     /\ (bad \/ Report(Ev)) /\ bad' = (bad \/ Wrong(Ev) # {})
     /\ holder' = CASE Ev.op = "start" /\ Ev.k = "held" /\ Free(holder, Ev.w) -> Started(holder, Ev.p, Ev.w)
                    [] Ev.op = "end" -> Gone(holder, Ev.p)
                    [] OTHER -> holder
     /\ auths' = IF Ev.op = "start" /\ Free(holder, Ev.w) /\ Ev.net THEN auths + 1 ELSE auths
     /\ i' = i + 1 /\ n' = n + 1 /\ t' = t
  \/ /\ t <= Len(Traces) /\ i > Len(Traces[t].ev)
     /\ t' = t + 1 /\ i' = 1 /\ n' = n /\ holder' = [w \in W |-> {}] /\ auths' = 0 /\ bad' = FALSE
     /\ (t = Len(Traces) => PrintT(<<"DONE", ToJson([traces |-> t, events |-> n])>>))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
