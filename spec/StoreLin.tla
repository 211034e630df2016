------------------------------ MODULE StoreLin ------------------------------
(* Concurrent requests of several connections (possibly to several server processes on the same repositories) against
   Store: every recorded call and return must be explained by requests which take effect, one at a time, between
   their call and their return.  Beginning and finishing a commit are two steps each, as they take and give back the lock. *)
EXTENDS StoreTrace
\* cand: set of [s: repository -> state, pend: client -> [e, ph, k, part, n]]
\* (a client of its own may use one connection for several repositories)
None == [ph |-> "idle", e |-> "", k |-> {}, part |-> {}, n |-> -1]
Clients(k) == ToSet(Traces[k].clients)
LinStart(k) == {[s |-> [r \in Repos(k) |-> Empty], pend |-> [c \in Clients(k) |-> None]]}

BusyIn(x, e) == \E r \in DOMAIN x.s : r # e.r /\ x.s[r].lock = e.c
Done(x, c, s2, o) == [x EXCEPT !.s[x.pend[c].e.r] = s2, !.pend[c] = [@ EXCEPT !.ph = "done", !.k = o.k, !.part = o.part, !.n = Len2(s2)]]
Mid(x, c, s2) == [x EXCEPT !.s[x.pend[c].e.r] = s2, !.pend[c].ph = "mid"]
Act(x, c) ==
  LET p == x.pend[c] e == p.e s == x.s[e.r] IN
  IF p.ph = "called" THEN
    (CASE e.op = "Begin" ->
            IF s.lock # "" \/ BusyIn(x, e) THEN {Done(x, c, s, Out(s, {"lock"}))}
            ELSE {Mid(x, c, [s EXCEPT !.lock = c])}
       [] e.op = "GC" ->
            IF s.lock # "" THEN {Done(x, c, s, Out(s, {"fail"}))} ELSE {Mid(x, c, [s EXCEPT !.lock = "gc"])}
       [] e.op = "Commit" /\ s.lock = c /\ s.rows # {} -> {Mid(x, c, Committed(s, e.u, e.msg))}
       [] e.op \in {"List", "Since"} -> {Done(x, c, s, Out(s, {"ok"}))}
       [] e.op = "PullHead" /\ e.p \in Paths(Tree(s)) -> {Done(x, c, s, Out(s, {"ok"}))}
       [] e.op \in {"Disc", "PullHead"} ->   \* (a file that is not there) releases whatever the connection holds
            {[x EXCEPT !.s = [r \in DOMAIN x.s |-> IF x.s[r].lock = c THEN [x.s[r] EXCEPT !.lock = ""] ELSE x.s[r]],
                       !.pend[c] = [@ EXCEPT !.ph = "done", !.k = IF e.op = "Disc" THEN {"ok", "gone"} ELSE {"fail", "gone", "garbled"}]]}
       [] OTHER -> {Done(x, c, o.s, o) : o \in Do(s, e, BusyIn(x, e))})
  ELSE IF p.ph = "mid" THEN
    (CASE e.op = "Begin" -> {Done(x, c, o.s, o) : o \in DoBegin([s EXCEPT !.lock = ""], e, FALSE)}
       [] e.op = "GC" -> {Done(x, c, o.s, o) : o \in DoGC([s EXCEPT !.lock = ""])}
       [] OTHER -> {Done(x, c, [Clean(s) EXCEPT !.ixO = s.ixO \/ s.ixA, !.lock = ""], Out(s, {"ok"}))})
  ELSE {}
RECURSIVE Closure(_, _)
Closure(all, new) ==
  LET next == UNION {UNION {Act(x, c) : c \in DOMAIN x.pend} : x \in new} \ all
  IN IF next = {} THEN all ELSE Closure(all \cup next, next)

AnswerFits(x, e) ==
  LET p == x.pend[e.c] IN
  /\ p.ph = "done" /\ e.res.k \in p.k
  /\ e.op = "Begin" /\ e.res.k = "ok" => Part(e) = p.part
  /\ e.op = "Push" /\ e.res.k = "ok" => e.res.x = e.x
  /\ e.op = "Since" /\ e.res.k = "ok" => (IF p.n = 0 THEN e.res.head = 0 ELSE SinceOK(x.s[e.r], e.rev, p.n, Part(e)))
  /\ e.op = "PullHead" /\ e.res.k = "ok" => e.res.x = Get(TreeAt(x.s[e.r], p.n), e.p)
  /\ e.op \in {"Commit", "List", "Since"} /\ e.res.k = "ok" => e.res.head = p.n

LStep(e) ==
  LET fit == CASE e.k = "call" -> {[x EXCEPT !.pend[e.c] = [None EXCEPT !.ph = "called", !.e = e]] : x \in cand}
               [] e.k = "ret"  -> {[x EXCEPT !.pend[e.c] = None] : x \in {y \in Closure(cand, cand) : AnswerFits(y, e)}}
               [] e.k = "look" -> {x \in cand : \A r \in DOMAIN x.s : SeenWrong(x.s[r], e.obs[r]) = {}}
  IN IF fit = {}
     THEN /\ (IF e.k = "ret" THEN Emit({<<"not_linearizable", e.op \o " answered " \o e.res.k>>})
              ELSE \E x \in cand : Emit(UNION {SeenWrong(x.s[r], e.obs[r]) : r \in DOMAIN x.s}))
          /\ i' = Len(Traces[t].ev) + 1 /\ n' = n + Len(Traces[t].ev) - i + 1 /\ cand' = cand /\ t' = t
     ELSE cand' = fit /\ i' = i + 1 /\ n' = n + 1 /\ t' = t

LInit == t = 1 /\ i = 1 /\ n = 0 /\ cand = LinStart(1)
LNext ==
  \/ t <= Len(Traces) /\ i <= Len(Traces[t].ev) /\ LStep(Ev)
  \/ /\ t <= Len(Traces) /\ i > Len(Traces[t].ev)
     /\ t' = t + 1 /\ i' = 1 /\ n' = n
     /\ cand' = IF t < Len(Traces) THEN LinStart(t + 1) ELSE {}
     /\ (t = Len(Traces) => PrintT(<<"DONE", ToJson([traces |-> t, events |-> n])>>))
LSpec == LInit /\ [][LNext]_vars
=============================================================================
