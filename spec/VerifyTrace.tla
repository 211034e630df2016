----------------------------- MODULE VerifyTrace -----------------------------
(* Total trace specification: each event is one run of "bvn_repo verify" or "bvn_repo gc" on one repository. *)
EXTENDS Verify, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, n
Ev == Traces[t].ev[i]
Range(q) == {q[j] : j \in 1..Len(q)}
Rec(e) == [objs |-> Range(e.objs), refs |-> Range(e.refs), head |-> Range(e.head), headgone |-> e.headgone, keep |-> Range(e.keep), logged |-> Range(e.logged), open |-> e.open]
Wrong(e) ==
  LET r == Rec(e) after == Range(e.after) IN
  CASE e.verdict = "hang" -> {<<"does_not_end", ToString(e.damage)>>}
    [] e.op = "verify" ->
         (IF Damaged(r) /\ e.verdict = "valid" THEN {<<"said_valid", ToString(Needed(r) \cap Bad(r))>>} ELSE {})
         \cup (IF Spotless(r) /\ e.verdict # "valid" THEN {<<"said_invalid", e.info>>} ELSE {})
         \cup (IF after # Stored(r) \/ e.touched THEN {<<"verify_modified", ToString((after \ Stored(r)) \cup (Stored(r) \ after))>>} ELSE {})
    [] e.op = "gc" ->
         (IF ~(MustStay(r) \subseteq after) THEN {<<"removed_needed", ToString(MustStay(r) \ after)>>} ELSE {})
         \cup (IF after \ Stored(r) # {} THEN {<<"gc_added", ToString(after \ Stored(r))>>} ELSE {})
         \cup (IF ~e.harmed /\ ~e.vague /\ MustGo(r) \cap after # {} THEN {<<"left_garbage", ToString(MustGo(r) \cap after)>>} ELSE {})
         \cup (IF ~e.harmed /\ e.verdict = "raised" THEN {<<"gc_raised", e.info>>} ELSE {})
         \cup (IF e.touched THEN {<<"gc_while_running", "">>} ELSE {})
    [] OTHER -> {<<"machinery", e.info>>}
Report(e) == \A w \in Wrong(e) : PrintT(<<"VIOL", ToJson([t |-> t, i |-> i, clause |-> w[1], info |-> w[2]])>>)
TraceInit == t = 1 /\ i = 1 /\ n = 0
TraceNext ==
  \/ /\ t <= Len(Traces) /\ i <= Len(Traces[t].ev) /\ Report(Ev)
     /\ i' = i + 1 /\ n' = n + 1 /\ t' = t
  \/ /\ t <= Len(Traces) /\ i > Len(Traces[t].ev)
     /\ t' = t + 1 /\ i' = 1 /\ n' = n
     /\ (t = Len(Traces) => PrintT(<<"DONE", ToJson([traces |-> t, events |-> n])>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i, n>>
=============================================================================
