---------------------------- MODULE MergeTrace ----------------------------
(* Total trace specification: each event is one call of the merge. *)
EXTENDS Merge, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, n
Ev == Traces[t].ev[i]
St(m, p) == IF p \in DOMAIN m THEN m[p] ELSE "none"
Paths(e) == DOMAIN e.server \cup DOMAIN e.client
Count(seq, p) == Cardinality({k \in 1..Len(seq) : seq[k] = p})
Places(e, p) == {c \in DOMAIN e.result : Count(e.result[c], p) > 0}

Wrong(e) ==
  LET bad == {p \in Paths(e) : Places(e, p) # {Cat(St(e.server, p), St(e.client, p))}}
      dup == {p \in Paths(e) : \E c \in DOMAIN e.result : Count(e.result[c], p) > 1}
      alien == UNION {{e.result[c][k] : k \in 1..Len(e.result[c])} : c \in DOMAIN e.result} \ Paths(e)
      conf == {p \in Paths(e) \cap DOMAIN e.conflicts :
                 e.conflicts[p] # <<ConflictStatus(St(e.client, p)), ConflictStatus(St(e.server, p))>>}
  IN (IF e.raised # "" THEN {<<"raised", e.raised>>} ELSE {})
     \cup {<<"category", p>> : p \in bad} \cup {<<"duplicate", p>> : p \in dup} \cup {<<"alien", p>> : p \in alien}
     \cup {<<"conflict_status", p>> : p \in conf}
     \cup (IF e.unmodified THEN {} ELSE {<<"input_modified", "">>})
     \cup (IF e.stable THEN {} ELSE {<<"order_dependent", "">>})
     \cup (IF e.payload THEN {} ELSE {<<"wrong_file_info", "">>})

Report(e) == \A w \in Wrong(e) : PrintT(<<"VIOL", ToJson([t |-> t, i |-> i, clause |-> w[1], info |-> w[2]])>>)
TraceInit == t = 1 /\ i = 1 /\ n = 0
TraceNext ==
  \/ /\ t <= Len(Traces) /\ i <= Len(Traces[t].ev) /\ Report(Ev)
     /\ i' = i + 1 /\ n' = n + 1 /\ t' = t
  \/ /\ t <= Len(Traces) /\ i > Len(Traces[t].ev)
     /\ t' = t + 1 /\ i' = 1 /\ n' = n
     /\ (t = Len(Traces) => PrintT(<<"DONE", ToJson([traces |-> t, events |-> n])>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i, n>>
=============================================================================
