------------------------------- MODULE CopyMC -------------------------------
(* Reverts (file by file) and checkouts (path by path) of several working copies, interrupted anywhere, among edits, commits and
   commits of others meanwhile. *)
EXTENDS Sync, TLC
CONSTANTS W, P, X, MaxHist, MaxEdits
VARIABLES h, ws, task, edits, act, note
vars == <<h, ws, task, edits, act, note>>
Idle == [kind |-> "none", k |-> 0, todo |-> {}, all |-> {}, from |-> {}]
Absent == [on |-> FALSE, disk |-> {}, man |-> {}, rev |-> 0, ign |-> {}, pign |-> {}]
\* note[w]: the path and version of the last finished revert, as long as nothing else happened to it
Init == /\ h = <<>> /\ ws = [w \in W |-> IF w = "w1" THEN [Absent EXCEPT !.on = TRUE] ELSE Absent] /\ task = [w \in W |-> Idle]
        /\ edits = 0 /\ act = <<"init", "", "">> /\ note = [w \in W |-> {}]
Free(w) == ws[w].on /\ task[w].kind = "none"
Other(w, p) == 3 - (IF At(ws[w].man, p) = {} THEN 2 ELSE (CHOOSE y \in At(ws[w].man, p) : TRUE)[2])
Edit(w, p, x) ==
  /\ Free(w) /\ edits < MaxEdits /\ edits' = edits + 1
  /\ ws' = [ws EXCEPT ![w].disk = {e \in @ : e[1] # p} \cup (IF x = "gone" THEN {} ELSE {<<p, x, Other(w, p)>>})]
  /\ note' = [note EXCEPT ![w] = {q \in @ : q[1] # p}] /\ act' = <<"edit", w, p>> /\ UNCHANGED <<h, task>>
Commit(w) ==
  /\ Free(w) /\ ws[w].rev = Len(h) /\ Len(h) < MaxHist /\ Rows(ws[w], h, P) # {}
  /\ h' = Append(h, NewVersion(ws[w], h, P)) /\ ws' = [ws EXCEPT ![w] = Told(@, P, Len(h) + 1)]
  /\ act' = <<"commit", w, "">> /\ UNCHANGED <<task, edits, note>>
BeginRevert(w, k, ps) ==
  /\ Free(w) /\ k \in 1..Len(h)
  /\ LET m == {p \in ps : InTree(HTree(h, k), p) # {}} IN
     /\ m # {} /\ task' = [task EXCEPT ![w] = [kind |-> "revert", k |-> k, todo |-> m, all |-> m, from |-> ws[w]]]
  /\ act' = <<"begin", w, "">> /\ UNCHANGED <<h, ws, edits, note>>
BeginCheckout(w) ==
  /\ ~ws[w].on /\ task[w].kind = "none"
  /\ task' = [task EXCEPT ![w] = [kind |-> "checkout", k |-> Len(h), todo |-> {p \in P : InTree(Newest(h), p) # {}}, all |-> P, from |-> ws[w]]]
  /\ ws' = [ws EXCEPT ![w].on = TRUE] /\ act' = <<"begin", w, "">> /\ UNCHANGED <<h, edits, note>>
PutFile(w, p, x, m, known) == [w EXCEPT !.disk = {e \in @ : e[1] # p} \cup {<<p, x, m>>}, !.man = IF known THEN {e \in @ : e[1] # p} \cup {<<p, x, m>>} ELSE @]
Step(w, p) ==
  LET u == task[w] x == CHOOSE c \in InTree(HTree(h, u.k), p) : TRUE known == u.kind = "checkout" \/ u.k = ws[w].rev IN
  /\ u.kind # "none" /\ p \in u.todo
  /\ ws' = [ws EXCEPT ![w] = PutFile(@, p, x, IF known THEN 1 ELSE Other(w, p), known)]
  /\ task' = [task EXCEPT ![w].todo = @ \ {p}] /\ act' = <<"step", w, p>> /\ note' = [note EXCEPT ![w] = {q \in @ : q[1] # p}] /\ UNCHANGED <<h, edits>>
Done(w) ==
  LET u == task[w] IN
  /\ u.kind # "none" /\ u.todo = {}
  /\ ws' = [ws EXCEPT ![w].rev = IF u.kind = "checkout" THEN u.k ELSE @]
  /\ note' = IF u.kind = "revert" THEN [note EXCEPT ![w] = @ \cup {<<p, u.k>> : p \in u.all}] ELSE note
  /\ task' = [task EXCEPT ![w] = Idle] /\ act' = <<"done", w, u.kind>> /\ UNCHANGED <<h, edits>>
Crash(w) == task[w].kind # "none" /\ task' = [task EXCEPT ![w] = Idle] /\ act' = <<"crash", w, "">> /\ UNCHANGED <<h, ws, edits, note>>
Next == \E w \in W : \/ \E p \in P : Step(w, p) \/ \E x \in X \cup {"gone"} : Edit(w, p, x)
                     \/ Commit(w) \/ BeginCheckout(w) \/ Done(w) \/ Crash(w)
                     \/ \E k \in 1..Len(h), ps \in SUBSET P : BeginRevert(w, k, ps)
Spec == Init /\ [][Next]_vars
\* ---- what is wanted
\* nothing but the requested files, those of the version (C11)
OnlyAsked == [][\A w \in W, p \in P : (act'[1] = "step" /\ act'[2] = w /\ act'[3] # p) \/ act'[1] \in {"begin", "crash"} => Same(ws[w], ws'[w], p)]_vars
\* a finished revert (C11)
Reverts == [][\A w \in W : act' = <<"done", w, "revert">> => \A p \in P : RevertedRight(task[w].from, ws'[w], h, task[w].k, task[w].all, p)]_vars
\* what was reverted to another version is what the next commit publishes
Publishes == [][act'[1] = "commit" => \A q \in note[act'[2]] : InTree(Newest(h'), q[1]) = InTree(HTree(h, q[2]), q[1])]_vars
\* a finished checkout (C12)
ChecksOut == [][\A w \in W : act' = <<"done", w, "checkout">> => (\A p \in P : Clean2(ws'[w], p, InTree(HTree(h, task[w].k), p))) /\ ws'[w].rev = task[w].k]_vars
=============================================================================
