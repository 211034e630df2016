------------------------------- MODULE SyncGen -------------------------------
(* Schedules for the real code: walks of several working copies, with what is useful preferred. *)
EXTENDS Sync, TLC, Json
CONSTANTS W, P, X, Depth, Rules, Nested, Mix
VARIABLES h, ws, path
vars == <<h, ws, path>>
IgnOf(x) == CASE x = "i1" -> {"a"} [] x = "i2" -> {"b"} [] x = "i3" -> {"b", "c"} [] OTHER -> {}
Up == IF Nested THEN {<<"D", "b">>, <<"D", "c">>} ELSE {}
Op(k, w) == [op |-> k, w |-> w, p |-> "", x |-> "", ps |-> {}, ans |-> "", full |-> FALSE, v |-> 0]
OneIn(k) == RandomElement(1..k) = 1
Fix(w) == [w EXCEPT !.ign = IF At(w.disk, "I") = {} THEN {} ELSE IgnOf((CHOOSE e \in At(w.disk, "I") : TRUE)[1])]
Files(w) == {p \in P : At(w.disk, p) # {}}
PutIt(w, p, x) ==
  LET ms == At(w.man, p) ds == At(w.disk, p) m == IF ms = {} THEN 1 ELSE 3 - (CHOOSE y \in ms : TRUE)[2]
  IN Fix([w EXCEPT !.disk = {e \in @ : e[1] # p} \cup {<<p, x, m>>}])
Del(w, p) == Fix([w EXCEPT !.disk = {e \in @ : e[1] # p}])
XOf(p) == IF p = "I" THEN {"i1", "i2", "i3", "e"} ELSE X
Edits(w) == {<<p, x>> : p \in {q \in P : \A r \in Files(ws[w]) : ~Clash(Up, q, r)}, x \in UNION {XOf(q) : q \in P}}
Apply1(w, p, v) ==
  CASE v = "same" -> w
    [] v = "client" -> [w EXCEPT !.man = IF At(w.man, p) # {} THEN @ ELSE @ \cup {<<p, y, 3 - (CHOOSE d \in At(w.disk, p) : TRUE)[2]>> : y \in InTree(Newest(h), p)}]
    [] v = "forget" -> [w EXCEPT !.man = {e \in @ : e[1] # p}]
    [] v = "server" -> [w EXCEPT !.disk = {e \in @ : e[1] # p} \cup {<<p, y, 1>> : y \in InTree(Newest(h), p)},
                                 !.man  = {e \in @ : e[1] # p} \cup {<<p, y, 1>> : y \in InTree(Newest(h), p)}]
RECURSIVE ApplyAll(_, _, _, _, _)
ApplyAll(w, w0, S, full, srv) == IF S = {} THEN w ELSE LET p == CHOOSE q \in S : TRUE IN ApplyAll(Apply1(w, p, Verdict(w0, h, full, p, srv)), w0, S \ {p}, full, srv)
Updated(w, full, srv) == [Fix(ApplyAll(w, w, P, full, srv)) EXCEPT !.rev = Len(h)]
Doing(w) == Changed(ws[w], P) # {}
Init == h = <<>> /\ path = <<>> /\ ws = [w \in W |-> [disk |-> {}, man |-> {}, rev |-> 0, ign |-> {}, pign |-> {}]]
Set(w, x) == ws' = [ws EXCEPT ![w] = x]
Edit(w) == \E e \in {y \in Edits(w) : y[2] \in XOf(y[1])} :
  /\ Set(w, PutIt(ws[w], e[1], e[2])) /\ path' = Append(path, [Op("edit", w) EXCEPT !.p = e[1], !.x = e[2]]) /\ h' = h
Rm(w) == \E p \in Files(ws[w]) : Set(w, Del(ws[w], p)) /\ path' = Append(path, [Op("rm", w) EXCEPT !.p = p]) /\ h' = h
Commit(w) ==
  /\ Rows(ws[w], h, P) # {} \/ OneIn(6)
  /\ path' = Append(path, Op("commit", w))
  /\ IF ws[w].rev = Len(h) /\ Rows(ws[w], h, P) # {} THEN h' = Append(h, NewVersion(ws[w], h, P)) /\ Set(w, Told(ws[w], P, Len(h) + 1))
     ELSE h' = h /\ ws' = ws
Update(w) ==
  LET full == OneIn(IF Rules THEN 2 ELSE 4) conf == Conflicts(ws[w], h, P, full) IN
  /\ ws[w].rev # Len(h) \/ full \/ OneIn(5)
  /\ \E srv \in SUBSET conf :
       /\ h' = h
       /\ IF Obstructed(ws[w], h, P, Up, full, srv) THEN ws' = ws ELSE Set(w, Updated(ws[w], full, srv))
       /\ LET u == [Op("update", w) EXCEPT !.full = full] IN
          path' = path \o IF conf = {} THEN <<u>>
                          ELSE IF srv = {} /\ OneIn(2) THEN <<[u EXCEPT !.ans = "client"]>>
                          ELSE IF srv = conf /\ OneIn(2) THEN <<[u EXCEPT !.ans = "server"]>>
                          ELSE <<[u EXCEPT !.ans = "manual"], [Op("resfile", w) EXCEPT !.ps = srv], u>>
\* everything
RevertNot(w) ==
  /\ Len(h) > 0
  /\ \E v \in 0..Len(h), ps \in SUBSET P, full \in BOOLEAN :
       /\ (ps # {} \/ full) /\ ps \cap ws[w].ign = {}
       /\ path' = Append(path, [Op("revert", w) EXCEPT !.full = full, !.v = v, !.ps = IF full THEN {} ELSE ps, !.ans = "no"]) /\ h' = h /\ ws' = ws
RevertAll(w) ==
  /\ Len(h) > 0
  /\ \E v \in 0..Len(h) :
       LET k == IF v = 0 THEN ws[w].rev ELSE v t == HTree(h, k) m == Reverting(ws[w], h, k, {}, TRUE) g == Removing(ws[w], m)
           d == IF m = {} THEN ws[w].disk ELSE {e \in ws[w].disk : e[1] \notin m \cup g} \cup {<<p, CHOOSE y \in InTree(t, p) : TRUE, IF k = ws[w].rev THEN 1 ELSE 2>> : p \in m}
       IN /\ \A p \in m, q \in Files(ws[w]) : ~Clash(Up, p, q)
          /\ path' = Append(path, [Op("revert", w) EXCEPT !.full = TRUE, !.v = IF v = Len(h) /\ OneIn(3) THEN -1 ELSE v]) /\ h' = h
          /\ Set(w, Fix([ws[w] EXCEPT !.disk = d, !.man = IF k = ws[w].rev THEN {e \in @ : e[1] \notin m} \cup {e \in d : e[1] \in m} ELSE @]))
Revert(w) ==
  /\ Len(h) > 0
  /\ \E v \in 0..Len(h) :
       LET k == IF v = 0 THEN ws[w].rev ELSE v t == HTree(h, k)
           m == {p \in P : InTree(t, p) # {} /\ ~Ignored(ws[w], p) /\ \A q \in Files(ws[w]) : ~Clash(Up, p, q)} IN
       \E ps \in SUBSET P :
         /\ ps # {} /\ ps \cap ws[w].ign = {}
         /\ ps \subseteq m \/ (OneIn(4) /\ ps \subseteq m \cup ws[w].pign)
         /\ path' = Append(path, [Op("revert", w) EXCEPT !.ps = ps, !.v = IF v = Len(h) /\ OneIn(3) THEN -1 ELSE v]) /\ h' = h
         /\ LET q == ps \cap m
                d == {e \in ws[w].disk : e[1] \notin q} \cup {<<p, CHOOSE y \in InTree(t, p) : TRUE, IF k = ws[w].rev THEN 1 ELSE 2>> : p \in q}
            IN Set(w, Fix([ws[w] EXCEPT !.disk = d, !.man = IF k = ws[w].rev THEN {e \in @ : e[1] \notin q} \cup {e \in d : e[1] \in q} ELSE @]))
Pign(w) == \E ps \in SUBSET (P \ {"I", "D"}) :
  /\ ps # ws[w].pign
  /\ Set(w, Opened([ws[w] EXCEPT !.pign = ps])) /\ path' = Append(path, [Op("pign", w) EXCEPT !.ps = ps]) /\ h' = h
PullIgnore(w) == \E ps \in SUBSET (P \ {"I", "D"}), a \in {"delete", "nothing"} :
  /\ ps # {} /\ ps \cap ws[w].pign = {}
  /\ LET f == OneIn(3) \/ (Doing(w) /\ OneIn(2)) hit == {p \in ps : At(ws[w].man, p) # {}} IN
     /\ path' = Append(path, [Op("pullignore", w) EXCEPT !.ps = ps, !.ans = a, !.full = f]) /\ h' = h
     /\ IF Doing(w) /\ ~f THEN ws' = ws
        ELSE Set(w, Opened([ws[w] EXCEPT !.pign = @ \cup ps, !.disk = IF a = "delete" THEN {e \in @ : e[1] \notin hit} ELSE @]))
Next ==
  /\ Len(path) < Depth
  /\ LET w == RandomElement(W) k == RandomElement(1..20) IN
     \/ UNCHANGED vars
     \/ CASE OneIn(3) /\ ws[w].rev # Len(h) -> Update(w)
          [] OneIn(4) /\ ws[w].rev = Len(h) /\ Rows(ws[w], h, P) # {} -> Commit(w)
          [] k <= 5 -> Edit(w)
          [] k <= 7 -> Rm(w)
          [] k <= 10 -> Commit(w)
          [] k <= 15 -> Update(w)
          [] k = 16 /\ Mix = "both" -> Pign(w)
          [] k = 17 /\ Mix = "both" -> PullIgnore(w)
          [] k >= 18 /\ Mix \in {"revert", "both"} -> IF OneIn(8) THEN RevertNot(w) ELSE IF OneIn(5) THEN RevertAll(w) ELSE Revert(w)
          [] k = 19 /\ Mix = "rules" -> Pign(w)
          [] k = 20 /\ Mix = "rules" -> PullIgnore(w)
          [] OTHER -> Commit(w) \/ Update(w)
Spec == Init /\ [][Next]_vars
PrintEnd == Len(path) >= Depth => PrintT(<<"SCHED", ToJson(path)>>)
=============================================================================
