---------------------------- MODULE AccessTrace ----------------------------
(* Recorded runs of the real server against Access.  A request which was held up has a "call" and a "ret" event, it takes effect
   somewhere between them; all others take effect when they are made. *)
EXTENDS Access, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, n, cand
vars == <<t, i, n, cand>>
Ev == Traces[t].ev[i]
Begin1(k) == {[a |-> Start0(ToSet(Traces[k].repos), ToSet(Traces[k].acc)), pend |-> "none", k |-> {}]}

Fits(o, e) ==
  /\ e.res.k \in o.k
  /\ e.op = "Begin" /\ e.res.k = "ok" => ToSet(e.res.part) = o.part
  /\ e.res.k = "ok" \/ ~e.res.data                           \* nothing is given away with a refusal
Gone(a, e) == IF e.res.k = "gone" THEN Leave(a, e.c) ELSE a
\* a held request may take effect before or after any other one
With2(x) == IF x.pend # "called" THEN {x}
            ELSE {x} \cup {[a |-> o.a, pend |-> "done", k |-> o.k] : o \in ADo(x.a, x.e)}
Strip(x) == [a |-> x.a, pend |-> "none", k |-> {}]
SeenWrong(a, o) ==
  (IF o.err # "" THEN {<<"unreadable", o.err>>} ELSE
   LET s == a.r[o.r].st IN
   (IF o.n # Len2(s) THEN {<<"history_length", ToString(o.n)>>} ELSE
    IF o.full /\ \E k \in 1..o.n : ToSet(o.versions[k].tree) # s.hist[k].tree \/ o.versions[k].by # s.hist[k].by THEN {<<"versions", ToString(o.versions)>>} ELSE {})
   \cup (IF ToSet(o.objs) # s.objs THEN {<<"objects", ToString(o.objs)>>} ELSE {}))
Emit(w) == \A x \in w : PrintT(<<"VIOL", ToJson([t |-> t, i |-> i, clause |-> x[1], info |-> x[2]])>>)
Fewest(W) == CHOOSE w \in W : \A v \in W : Cardinality(w) <= Cardinality(v)

Step(e) ==
  LET before == UNION {With2(x) : x \in cand}
      aft == CASE e.k = "call" -> {[a |-> x.a, pend |-> "called", k |-> {}, e |-> e] : x \in cand}
               [] e.k = "ret" -> {[a |-> Gone(x.a, e), pend |-> "none", k |-> {}] : x \in {y \in before : y.pend = "done" /\ e.res.k \in y.k /\ (e.res.k = "ok" \/ ~e.res.data)}}
               [] OTHER -> UNION {{[x EXCEPT !.a = Gone(o.a, e)] : o \in {q \in ADo(x.a, e) : Fits(q, e)}} : x \in before}
      seen == {x \in aft : \A q \in 1..Len(e.obs) : SeenWrong(x.a, e.obs[q]) = {}}
      skip == /\ i' = Len(Traces[t].ev) + 1 /\ n' = n + Len(Traces[t].ev) - i + 1 /\ cand' = cand /\ t' = t
      who == e.op \o " of " \o e.r \o " with " \o e.tok \o " answered " \o e.res.k
  IN IF aft = {} THEN Emit({<<(IF e.res.k = "ok" THEN "served" ELSE IF e.res.data THEN "data_with_refusal" ELSE "refused"), who>>}) /\ skip
     ELSE IF seen = {} THEN Emit(Fewest({UNION {SeenWrong(x.a, e.obs[q]) : q \in 1..Len(e.obs)} : x \in aft})) /\ skip
     ELSE cand' = seen /\ i' = i + 1 /\ n' = n + 1 /\ t' = t
TraceInit == t = 1 /\ i = 1 /\ n = 0 /\ cand = Begin1(1)
TraceNext ==
  \/ t <= Len(Traces) /\ i <= Len(Traces[t].ev) /\ Step(Ev)
  \/ /\ t <= Len(Traces) /\ i > Len(Traces[t].ev)
     /\ t' = t + 1 /\ i' = 1 /\ n' = n
     /\ cand' = IF t < Len(Traces) THEN Begin1(t + 1) ELSE {}
     /\ (t = Len(Traces) => PrintT(<<"DONE", ToJson([traces |-> t, events |-> n])>>))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
