------------------------------ MODULE VerifyMC ------------------------------
(* A repository with its objects: commits, uploads, interruptions, damage; the procedures of the implementation
   (walk from the head; hash everything; mark and sweep) against Verify *)
EXTENDS Verify
CONSTANTS X, MaxHist, MaxDamage
VARIABLES hist, up, open, log, disk, bad, lost
vars == <<hist, up, open, log, disk, bad, lost>>
(* objects: <<"file", content>>, <<"tree", set of contents>> (one directory), <<"commit", number>> *)
F(x) == <<"file", {x}, 0>>
T(S) == <<"tree", S, 0>>
C(k) == <<"commit", hist[k], k>>
CC(k, S) == <<"commit", S, k>>
Refs(o) == CASE o[1] = "file" -> {}
             [] o[1] = "tree" -> {F(x) : x \in o[2]}
             [] OTHER -> {T(o[2])} \cup (IF o[3] = 1 THEN {} ELSE {C(o[3] - 1)})
All == {F(x) : x \in X} \cup {T(S) : S \in SUBSET X} \cup {C(k) : k \in 1..Len(hist)} \cup disk
RefSet == UNION {{<<o, p>> : p \in Refs(o)} : o \in All}
Ever == Close(IF hist = <<>> THEN {} ELSE {C(Len(hist))}, RefSet)
State(o) == IF o \notin disk THEN "missing" ELSE IF o \in bad THEN "altered" ELSE "ok"
R == [objs |-> {<<o, o[1], State(o)>> : o \in disk \cup Ever}, refs |-> RefSet, head |-> IF hist = <<>> THEN {} ELSE {C(Len(hist))},
      headgone |-> lost, keep |-> IF open THEN {F(x) : x \in up} ELSE {}, logged |-> log, open |-> open]

Init == hist = <<>> /\ up = {} /\ open = FALSE /\ log = {} /\ disk = {} /\ bad = {} /\ lost = FALSE
Sound == bad = {} /\ ~lost
Begin == ~open /\ Sound /\ open' = TRUE /\ UNCHANGED <<hist, up, log, disk, bad, lost>>
Write(S) == disk' = disk \cup S /\ log' = log \cup (S \ disk)
Upload(x) == open /\ Sound /\ up' = up \cup {x} /\ Write({F(x)}) /\ UNCHANGED <<hist, open, bad, lost>>
Partly(S) == open /\ Sound /\ Len(hist) < MaxHist /\ S \subseteq up /\ S # {} /\ \E w \in {{T(S)}, {T(S), CC(Len(hist) + 1, S)}} : Write(w)
             /\ UNCHANGED <<hist, up, open, bad, lost>>                              \* interrupted while finishing
Finish(S) == open /\ Sound /\ Len(hist) < MaxHist /\ S # {} /\ S \subseteq up \cup (IF hist = <<>> THEN {} ELSE hist[Len(hist)])
             /\ disk' = disk \cup {T(S), CC(Len(hist) + 1, S)} /\ hist' = Append(hist, S) /\ open' = FALSE /\ up' = {} /\ log' = {} /\ UNCHANGED <<bad, lost>>
Discard == open /\ Sound /\ disk' = disk \ log /\ open' = FALSE /\ up' = {} /\ log' = {} /\ UNCHANGED <<hist, bad, lost>>
(* the procedures *)
Walkable == \A o \in Ever : o[1] # "file" => State(o) = "ok"
CommitsThere == \E o \in disk : o[1] = "commit"
Verdict == IF lost THEN IF CommitsThere THEN "issues" ELSE "valid"
           ELSE IF ~Walkable THEN "raised"
           ELSE IF hist = <<>> /\ CommitsThere THEN "issues"
           ELSE IF (Ever \ disk # {}) \/ bad \cap disk # {} THEN "issues" ELSE "valid"
Swept == disk \cap (Ever \cup (IF open THEN {F(x) : x \in up} ELSE {}))
Collect == IF lost \/ ~Walkable \/ (hist = <<>> /\ CommitsThere) THEN UNCHANGED disk ELSE disk' = Swept
GC == Collect /\ UNCHANGED <<hist, up, open, log, bad, lost>>
Harm == ~lost /\ Cardinality(bad) < MaxDamage
Alter(o) == Harm /\ o \in disk /\ bad' = bad \cup {o} /\ UNCHANGED <<hist, up, open, log, disk, lost>>
Lose(o) == Harm /\ o \in disk /\ bad' = bad \cup {o} /\ disk' = disk \ {o} /\ UNCHANGED <<hist, up, open, log, lost>>
LoseHead == hist # <<>> /\ ~lost /\ bad = {} /\ lost' = TRUE /\ UNCHANGED <<hist, up, open, log, disk, bad>>
Next == Begin \/ Discard \/ GC \/ LoseHead \/ (\E x \in X : Upload(x)) \/ (\E S \in SUBSET X : Partly(S) \/ Finish(S)) \/ (\E o \in disk : Alter(o) \/ Lose(o))
Spec == Init /\ [][Next]_vars
(* a lost object which is rewritten by nobody stays lost: bad counts damage, not garbage *)
Truth == VerdictOK(R, Verdict)
Readable == Sound => Ever \subseteq disk
Resumable == Sound /\ open => {F(x) : x \in up} \subseteq disk
Safe == [][GC => (disk \ disk') \cap (Ever \cup (IF open THEN {F(x) : x \in up} ELSE {})) = {}]_vars
Exact == [][GC /\ Sound /\ ~(hist = <<>> /\ CommitsThere) => MustStay(R) \subseteq disk' /\ MustGo(R) \cap disk' = {}]_vars
=============================================================================
