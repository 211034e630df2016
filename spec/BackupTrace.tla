----------------------------- MODULE BackupTrace -----------------------------
EXTENDS Backup, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, n, st
Ev == Traces[t].ev[i]
Repos == {"r", "r2"}
Start == [r \in Repos |-> Fresh]
SetOf(x) == {x[k] : k \in 1..Len(x)}
Trees(vs) == [k \in 1..Len(vs) |-> SetOf(vs[k])]
Backed(e) == SetOf(e.repos)
Wrong(s, e) ==
  CASE e.op = "commit" -> IF e.r # "ok" THEN {<<"commit", e.info>>} ELSE {}
    [] e.op = "run" ->
         (IF e.r = "error" /\ ~e.fault THEN {<<"backup_fails", e.info>>} ELSE {})
         \cup (IF e.leak # "" THEN {<<"not_encrypted", e.leak>>} ELSE {})
         \cup (IF e.r = "hang" THEN {<<"hang", e.info>>} ELSE {})
    [] e.op = "restore" ->
         (IF e.r = "hang" THEN {<<"hang", e.info>>} ELSE {})
         \cup (IF e.r # "ok" /\ ~e.fault /\ \A r \in Backed(e) : MustRestore(s[r]) THEN {<<"restore_fails", e.info>>} ELSE {})
    [] e.op = "restored" ->                         \* one repository after a restore without error
         (IF Trees(e.versions) \notin MayBe(s[e.repo])
            THEN {<<"restored_versions", ToString(<<e.repo, Len(e.versions), Len(s[e.repo].hist), s[e.repo].safe>>)>>} ELSE {})
         \cup (IF e.bad # "" THEN {<<"restored_objects", e.bad>>} ELSE {})
    [] e.op = "local" -> IF e.bad # "" THEN {<<"local_repository", e.bad>>} ELSE {}
    [] OTHER -> {<<"machinery", e.op>>}
Step(s, e) ==
  CASE e.op = "commit" /\ e.r = "ok" -> [s EXCEPT ![e.repo] = Commit(@, SetOf(e.tree))]
    [] e.op = "run" -> [r \in Repos |-> IF r \notin Backed(e) THEN s[r]
                                        ELSE IF e.r = "ok" THEN RunOk(s[r], IF r = "r" THEN e.start1 ELSE e.start2) ELSE RunCut(s[r])]
    [] OTHER -> s
Report(e) == \A w \in Wrong(st, e) : PrintT(<<"VIOL", ToJson([t |-> t, i |-> i, clause |-> w[1], info |-> w[2]])>>)
TraceInit == t = 1 /\ i = 1 /\ n = 0 /\ st = Start
TraceNext ==
  \/ /\ t <= Len(Traces) /\ i <= Len(Traces[t].ev) /\ Report(Ev)
     /\ st' = Step(st, Ev) /\ i' = i + 1 /\ n' = n + 1 /\ t' = t
  \/ /\ t <= Len(Traces) /\ i > Len(Traces[t].ev)
     /\ t' = t + 1 /\ i' = 1 /\ n' = n /\ st' = Start
     /\ (t = Len(Traces) => PrintT(<<"DONE", ToJson([traces |-> t, events |-> n])>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i, n, st>>
=============================================================================
