----------------------------- MODULE StoreTrace -----------------------------
(* Recorded runs of the real server against Store.  cand holds, for each repository, the states it may be in; what is
   answered and what can be seen afterwards restricts them.  The first deviation of a run is reported. *)
EXTENDS Store, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, n, cand
vars == <<t, i, n, cand>>
Ev == Traces[t].ev[i]
Repos(k) == ToSet(Traces[k].repos)
Start(k) == [r \in Repos(k) |-> {Empty}]

\* ---- the answer
Busy(e) == \E r \in DOMAIN cand : r # e.r /\ \E s \in cand[r] : s.lock = e.c
Part(e) == ToSet(e.res.part)
AnswerWrong(e, o) ==
  (IF e.res.k \in o.k THEN {} ELSE {<<"answer", e.op \o " answered " \o e.res.k>>})
  \cup (IF e.op = "Begin" /\ e.res.k = "ok" /\ "ok" \in o.k /\ (Part(e) # o.part \/ Len(e.res.part) # Cardinality(o.part))
        THEN {<<"resume_report", ToString(Part(e))>>} ELSE {})
  \cup (IF e.op = "Push" /\ e.res.k = "ok" /\ e.res.x # e.x THEN {<<"reported_hash", e.res.x>>} ELSE {})
  \cup (IF e.op = "Pull" /\ e.res.k = "ok" /\ "ok" \in o.k /\ e.res.x # Get(TreeAt(o.s, e.rev), e.p) THEN {<<"pulled", e.res.x>>} ELSE {})
  \cup (IF e.op = "Commit" /\ e.res.k = "ok" /\ e.res.head # Len2(o.s) THEN {<<"reported_head", ToString(e.res.head)>>} ELSE {})

\* ---- what can be seen
VersionWrong(k, v, w) ==
  (IF ToSet(w.tree) # v.tree \/ Len(w.tree) # Cardinality(v.tree) THEN {<<"tree", ToString(<<k, w.tree>>)>>} ELSE {})
  \cup (IF ToSet(w.chg) # v.chg \/ Len(w.chg) # Cardinality(v.chg) THEN {<<"changes", ToString(<<k, w.chg>>)>>} ELSE {})
  \cup (IF w.by # v.by THEN {<<"author", w.by>>} ELSE {})
  \cup (IF w.msg # v.msg THEN {<<"message", w.msg>>} ELSE {})
SeenWrong(s, o) ==
  IF o.err # "" THEN {<<"unreadable", o.err>>}
  ELSE (IF o.n # Len2(s) THEN {<<"history_length", ToString(o.n)>>}
        ELSE IF ~o.full THEN {} ELSE UNION {VersionWrong(k, s.hist[k], o.versions[k]) : k \in 1..o.n})
  \cup (IF s.objs \subseteq ToSet(o.objs) THEN {} ELSE {<<"objects_missing", ToString(s.objs \ ToSet(o.objs))>>})
  \cup (IF ToSet(o.objs) \subseteq s.objs THEN {} ELSE {<<"objects_extra", ToString(ToSet(o.objs) \ s.objs)>>})
  \cup (IF Len(o.objs) # Cardinality(ToSet(o.objs)) THEN {<<"stored_twice", ToString(o.objs)>>} ELSE {})
  \cup (IF o.orphans > 0 /\ ~s.ixA /\ ~s.ixO THEN {<<"index_garbage", ToString(o.orphans)>>} ELSE {})
  \cup (IF o.badindex > 0 THEN {<<"index_damaged", ToString(o.badindex)>>} ELSE {})
  \cup UNION {IF k <= o.n + 1 /\ o.n = Len2(s) /\ ~SinceOK(s, k - 1, o.n, ToSet(o.since[k])) THEN {<<"report", ToString(<<k - 1, o.since[k]>>)>>}
              ELSE IF Len(o.since[k]) # Cardinality({r[1] : r \in ToSet(o.since[k])}) THEN {<<"report_twice", ToString(o.since[k])>>} ELSE {}
              : k \in 1..Len(o.since)}

\* ---- one event
Failed(e) == e.res.k \in {"gone", "fail", "raised"}
After(e) ==
  LET now == cand[e.r] IN
  IF e.crash THEN UNION {CrashDo(s, e2, Busy(e)) : s \in now, e2 \in {[e EXCEPT !.rev = IF e.back > 0 THEN (IF Len2(s) - e.back < 0 THEN 0 ELSE Len2(s) - e.back) ELSE Len2(s)] : s \in now}}
  ELSE IF e.fault /\ e.res.k # "ok" /\ Failed(e) THEN UNION {FaultDo(s, e, Busy(e)) : s \in now}
  ELSE LET out == {o.s : o \in {q \in UNION {Do(s, e, Busy(e)) : s \in now} : AnswerWrong(e, q) = {}}}
       IN IF e.op = "Pull" /\ e.res.k # "ok" THEN UNION {{o.s : o \in DoDisc(s, e)} : s \in out} ELSE out
Unlocked(S) == {[s EXCEPT !.lock = ""] : s \in S}
\* other repositories: their connections end with the server
Others(e, r) == IF e.crash \/ e.op \in {"Restart", "Lose"} THEN Unlocked(cand[r])
                ELSE IF e.op \in {"Disc", "PushCut", "Bad"} \/ (e.fault /\ e.res.k = "gone") \/ (e.op = "Pull" /\ e.res.k # "ok") THEN {o.s : o \in UNION {DoDisc(s, e) : s \in cand[r]}}
                ELSE cand[r]
Fewest(W) == CHOOSE w \in W : \A v \in W : Cardinality(w) <= Cardinality(v)
Emit(w) == \A x \in w : PrintT(<<"VIOL", ToJson([t |-> t, i |-> i, clause |-> x[1], info |-> x[2]])>>)

Step(e) ==
  LET aft  == After(e)
      seen == [r \in DOMAIN cand |-> {s \in (IF r = e.r THEN aft ELSE Others(e, r)) : SeenWrong(s, e.obs[r]) = {}}]
      bad  == {r \in DOMAIN cand : seen[r] = {}}
      skip == /\ i' = Len(Traces[t].ev) + 1 /\ n' = n + Len(Traces[t].ev) - i + 1 /\ cand' = cand /\ t' = t
  IN IF aft = {}
     THEN Emit(Fewest({AnswerWrong(e, o) : o \in UNION {Do(s, e, Busy(e)) : s \in cand[e.r]}})) /\ skip
     ELSE IF bad # {}
     THEN /\ \A r \in bad : Emit(Fewest({IF r = e.r THEN SeenWrong(s, e.obs[r]) ELSE {<<"other_repository:" \o w[1], w[2]>> : w \in SeenWrong(s, e.obs[r])}
                                         : s \in (IF r = e.r THEN aft ELSE Others(e, r))}))
          /\ skip
     ELSE cand' = seen /\ i' = i + 1 /\ n' = n + 1 /\ t' = t

TraceInit == t = 1 /\ i = 1 /\ n = 0 /\ cand = Start(1)
TraceNext ==
  \/ t <= Len(Traces) /\ i <= Len(Traces[t].ev) /\ Step(Ev)
  \/ /\ t <= Len(Traces) /\ i > Len(Traces[t].ev)
     /\ t' = t + 1 /\ i' = 1 /\ n' = n
     /\ cand' = IF t < Len(Traces) THEN Start(t + 1) ELSE <<>>
     /\ (t = Len(Traces) => PrintT(<<"DONE", ToJson([traces |-> t, events |-> n])>>))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
