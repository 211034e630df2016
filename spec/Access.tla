------------------------------- MODULE Access -------------------------------
(* Who is served.  For every repository: the challenges which were issued and not used, the sessions, and the repository itself
   (Store).  Ids of challenges and sessions are the ones the server gave out, named in order by whoever records the run.
     ch    set of [id, ip, exp]            se   set of [id, ip, u, exp]
     own   session which owns the active commit
   acc is the set of <<user, repository>> the configuration permits. *)
EXTENDS Store
ChallengeLife == 30
SessionLife == 7200

RepoStart == [st |-> Empty, ch |-> {}, se |-> {}, own |-> ""]
Start0(R, acc) == [now |-> 0, acc |-> acc, r |-> [x \in R |-> RepoStart]]

\* at the very moment of expiry both is right
Alive(a, exp) == IF a.now < exp THEN {TRUE} ELSE IF a.now > exp THEN {FALSE} ELSE {TRUE, FALSE}
Sessions(a, r, id, ip) == {s \in a.r[r].se : s.id = id /\ s.ip = ip}
LiveSession(a, r, id, ip) ==
  IF r \notin DOMAIN a.r \/ Sessions(a, r, id, ip) = {} THEN {FALSE}
  ELSE LET s == CHOOSE x \in Sessions(a, r, id, ip) : TRUE
       IN IF a.r[r].own = s.id /\ a.r[r].st.act.on THEN {TRUE} ELSE Alive(a, s.exp)
TheSession(a, r, id) == CHOOSE s \in a.r[r].se : s.id = id

AOut(a, k) == [a |-> a, k |-> k, part |-> {}]
NoService == {"auth", "fail", "gone"}

\* ---- the handshake
DoBeginAuth(a, e) ==
  IF e.r \notin DOMAIN a.r THEN {AOut(a, NoService)}
  ELSE {AOut([a EXCEPT !.r[e.r].ch = @ \cup {[id |-> e.new, ip |-> e.ip, exp |-> a.now + ChallengeLife]}], {"ok"})}

\* logins say which version the client has: d above the oldest one which is supported
Outdated(e) == e.op \in {"Auth", "AuthS"} /\ e.d < 0
GoodAuth(a, e) ==   \* challenges this may be the answer to
  IF e.r \notin DOMAIN a.r \/ <<e.u, e.r>> \notin a.acc \/ e.sig # e.u THEN {}
  ELSE {c \in a.r[e.r].ch : c.id = e.tok /\ c.ip = e.ip /\ TRUE \in Alive(a, c.exp)}
DoAuth(a, e) ==
  LET g == GoodAuth(a, e)
      ok == {AOut([a EXCEPT !.r[e.r].ch = @ \ g, !.r[e.r].se = @ \cup {[id |-> e.new, ip |-> e.ip, u |-> e.u, exp |-> a.now + SessionLife]}], {"ok"})}
      \* a failed attempt may cost the challenge it names
      lost == IF e.r \in DOMAIN a.r THEN [a EXCEPT !.r[e.r].ch = {c \in @ : c.id # e.tok}] ELSE a
      no == {AOut(a, NoService), AOut(lost, NoService)}
  IN IF g = {} \/ Outdated(e) THEN no ELSE IF \E c \in g : FALSE \in Alive(a, c.exp) THEN ok \cup no ELSE ok
\* presenting a session instead: whether that prolongs it, or needs the user to have access, does not matter
DoAuthS(a, e) ==
  LET live == LiveSession(a, e.r, e.tok, e.ip)
      s == TheSession(a, e.r, e.tok)
      ok == {AOut(a, {"ok"}), AOut([a EXCEPT !.r[e.r].se = (@ \ {s}) \cup {[s EXCEPT !.exp = a.now + SessionLife]}], {"ok"})}
  IN (IF TRUE \in live /\ ~Outdated(e) THEN ok ELSE {})
     \cup (IF FALSE \in live \/ Outdated(e) \/ <<s.u, e.r>> \notin a.acc THEN {AOut(a, NoService)} ELSE {})

\* ---- requests
Reads == {"List", "Files", "Changes", "Since", "Pull"}
DoRead(s, e) ==
  CASE e.op \in {"List", "Since"} -> {Out(s, {"ok"})}
    [] e.op \in {"Files", "Changes"} -> {Out(s, IF e.rev > 0 THEN {"ok"} ELSE {"fail", "gone"})}
    [] e.op = "Pull" -> DoPull(s, e)
Busy2(a, e) == \E q \in DOMAIN a.r : q # e.r /\ a.r[q].st.lock = e.c
DoServed(a, e) ==
  LET s == TheSession(a, e.r, e.tok)
      se2 == (a.r[e.r].se \ {s}) \cup {[s EXCEPT !.exp = a.now + SessionLife]}
      outs == IF e.op \in Reads THEN DoRead(a.r[e.r].st, e) ELSE Do(a.r[e.r].st, [e EXCEPT !.u = s.u], Busy2(a, e))
  IN {[a |-> [a EXCEPT !.r[e.r].se = se2, !.r[e.r].st = o.s,
                       !.r[e.r].own = IF ~o.s.act.on THEN "" ELSE IF e.op = "Begin" /\ o.s.lock = e.c /\ a.r[e.r].st.lock # e.c THEN e.tok ELSE @],
        k |-> o.k, part |-> o.part] : o \in outs}
DoRequest(a, e) ==
  LET live == LiveSession(a, e.r, e.tok, e.ip)
      s == TheSession(a, e.r, e.tok)
      may == <<s.u, e.r>> \in a.acc
  IN (IF TRUE \in live /\ may THEN DoServed(a, e) ELSE {})
     \cup (IF TRUE \in live /\ ~may THEN {AOut(a, NoService), AOut([a EXCEPT !.r[e.r].se = (@ \ {s}) \cup {[s EXCEPT !.exp = a.now + SessionLife]}], NoService)} ELSE {})
     \cup (IF FALSE \in live THEN {AOut(a, NoService)} ELSE {})

\* ---- connections, time, configuration
Leave(a, c) == [a EXCEPT !.r = [q \in DOMAIN a.r |-> IF a.r[q].st.lock = c THEN [a.r[q] EXCEPT !.st.lock = ""] ELSE a.r[q]]]
ADo(a, e) ==
  CASE e.op = "BeginAuth" -> DoBeginAuth(a, e)
    [] e.op = "Auth"      -> DoAuth(a, e)
    [] e.op = "AuthS"     -> DoAuthS(a, e)
    [] e.op = "Tick"      -> {AOut([a EXCEPT !.now = @ + e.d], {"ok"})}
    [] e.op = "Perm"      -> {AOut([a EXCEPT !.acc = IF e.on THEN @ \cup {<<e.u, e.r>>} ELSE @ \ {<<e.u, e.r>>}], {"ok"})}
    [] e.op = "Disc"      -> {AOut(Leave(a, e.c), {"ok", "gone"})}
    [] OTHER              -> DoRequest(a, e)
=============================================================================
