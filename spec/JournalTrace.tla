---------------------------- MODULE JournalTrace ----------------------------
(* Recorded runs of the real working copy code against Journal.  cand: the states [files, man] the working copy may be in. *)
EXTENDS Journal, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, n, cand
vars == <<t, i, n, cand>>
Ev == Traces[t].ev[i]
Dirs == ToSet(Traces[t].dirs)
FilesOf(o) == ToSet(o.files)
ManOf(o) == {<<x[1], x[2]>> : x \in ToSet(o.man)}
\* files changed outside of the manifest (level jfs) have any time: only completed ds operations must leave a current entry, and
\* what is rolled back the entry it had
SeenWrong(s, o) ==
  IF o.err # "" THEN {<<"unusable", o.err>>} ELSE
  (IF FilesOf(o) # s.files THEN {<<"files", ToString(o.files)>>} ELSE {})
  \cup (IF ManOf(o) # {<<x[1], x[2]>> : x \in s.man} THEN {<<"manifest", ToString(o.man)>>} ELSE {})
  \cup (IF \E x \in s.man : x[3] /\ <<x[1], x[2], TRUE>> \notin ToSet(o.man) THEN {<<"manifest_time", ToString(o.man)>>} ELSE {})
  \cup (IF o.journal # 0 THEN {<<"journal_left", ToString(o.journal)>>} ELSE {})
Fresh(s, d) == [files |-> d.files, man |-> IF Ev.level = "jfs" THEN Stale(d.man, Ev.steps) ELSE d.man]
After(e) ==
  CASE e.op = "start"   -> {[files |-> FilesOf(e.obs), man |-> ToSet(e.obs.man)]}
    [] e.op = "recover" -> cand
    [] e.op = "txn" /\ e.res = "crash" -> cand \cup {Fresh(s, Outcome(s.files, s.man, Dirs, e)) : s \in cand}
    \* the file system failed once: all or nothing, and nothing if not all is claimed
    [] e.op = "txn" /\ e.fault -> {Fresh(s, Outcome(s.files, s.man, Dirs, e)) : s \in cand} \cup (IF e.res = "ok" THEN {} ELSE cand)
    [] e.op = "txn" -> {Fresh(s, Outcome(s.files, s.man, Dirs, e)) : s \in {x \in cand :
                          LET o == Outcome(x.files, x.man, Dirs, e) IN o.ok = e.ok /\ e.res = (IF o.err THEN "err" ELSE "ok")}}
Fewest(W) == CHOOSE w \in W : \A v \in W : Cardinality(w) <= Cardinality(v)
Emit(w) == \A x \in w : PrintT(<<"VIOL", ToJson([t |-> t, i |-> i, clause |-> x[1], info |-> x[2]])>>)
Step(e) ==
  LET aft == After(e)
      looked == e.look
      seen == IF looked THEN {s \in aft : SeenWrong(s, e.obs) = {}} ELSE aft
      skip == /\ i' = Len(Traces[t].ev) + 1 /\ n' = n + Len(Traces[t].ev) - i + 1 /\ cand' = cand /\ t' = t
  IN IF aft = {} THEN Emit({<<"answer", e.op \o " " \o e.res \o " " \o ToString(e.ok)>>}) /\ skip
     ELSE IF seen = {} THEN Emit(Fewest({SeenWrong(s, e.obs) : s \in aft})) /\ skip
     ELSE cand' = seen /\ i' = i + 1 /\ n' = n + 1 /\ t' = t
TraceInit == t = 1 /\ i = 1 /\ n = 0 /\ cand = {}
TraceNext ==
  \/ t <= Len(Traces) /\ i <= Len(Traces[t].ev) /\ Step(Ev)
  \/ /\ t <= Len(Traces) /\ i > Len(Traces[t].ev)
     /\ t' = t + 1 /\ i' = 1 /\ n' = n /\ cand' = {}
     /\ (t = Len(Traces) => PrintT(<<"DONE", ToJson([traces |-> t, events |-> n])>>))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
