------------------------------- MODULE SyncMC -------------------------------
(* Updates done path by path, in any order and interrupted anywhere, and commits, of several working copies. *)
EXTENDS Sync, TLC
CONSTANTS W, P, X, MaxHist, MaxEdits, Rules
VARIABLES h, ws, upd, clk, edits, act
vars == <<h, ws, upd, clk, edits, act>>
None == [on |-> FALSE, full |-> FALSE, srv |-> {}, todo |-> {}, n |-> 0, from |-> {}]
Fresh0 == [disk |-> {}, man |-> {}, rev |-> 0, ign |-> {}, pign |-> {}]
Init == h = <<>> /\ ws = [w \in W |-> Fresh0] /\ upd = [w \in W |-> None] /\ clk = 1 /\ edits = 0 /\ act = <<"init", "", "">>
\* times only have to differ from the one in the manifest
Edit(w, p, x) ==
  LET ms == At(ws[w].man, p) m == IF ms = {} THEN 1 ELSE 3 - (CHOOSE y \in ms : TRUE)[2] IN
  /\ edits < MaxEdits /\ ~upd[w].on
  /\ ws' = [ws EXCEPT ![w].disk = {e \in @ : e[1] # p} \cup {<<p, x, m>>}]
  /\ edits' = edits + 1 /\ act' = <<"edit", w, p>> /\ UNCHANGED <<h, upd, clk>>
Rm(w, p) ==
  /\ edits < MaxEdits /\ ~upd[w].on /\ At(ws[w].disk, p) # {}
  /\ ws' = [ws EXCEPT ![w].disk = {e \in @ : e[1] # p}]
  /\ edits' = edits + 1 /\ act' = <<"edit", w, p>> /\ UNCHANGED <<h, upd, clk>>
Rule(w, p) ==
  /\ Rules /\ edits < MaxEdits /\ ~upd[w].on
  /\ \E kind \in {"ign", "pign"}, on \in BOOLEAN :
       ws' = [ws EXCEPT ![w] = IF kind = "ign" THEN [@ EXCEPT !.ign = IF on THEN @ \cup {p} ELSE @ \ {p}] ELSE Opened([@ EXCEPT !.pign = IF on THEN @ \cup {p} ELSE @ \ {p}])]
  /\ edits' = edits + 1 /\ act' = <<"rule", w, p>> /\ UNCHANGED <<h, upd, clk>>
Begin(w, full, srv) ==
  /\ ~upd[w].on
  /\ srv \subseteq Conflicts(ws[w], h, P, full)
  /\ upd' = [upd EXCEPT ![w] = [on |-> TRUE, full |-> full, srv |-> srv, n |-> Len(h), from |-> ws[w],
                                todo |-> {p \in P : Verdict(ws[w], h, full, p, srv) # "same"}]]
  /\ act' = <<"begin", w, "">> /\ UNCHANGED <<h, ws, clk, edits>>
Taken(w, p, x) == [w EXCEPT !.disk = {e \in @ : e[1] # p} \cup {<<p, y, 1>> : y \in x}, !.man = {e \in @ : e[1] # p} \cup {<<p, y, 1>> : y \in x}]
Stays(w, p, x) == [w EXCEPT !.man = IF At(w.man, p) # {} THEN @ ELSE @ \cup {<<p, y, 3 - (CHOOSE d \in At(w.disk, p) : TRUE)[2]>> : y \in x}]
Step(w, p) ==
  LET u == upd[w] hn == SubSeq(h, 1, u.n) v == Verdict(u.from, hn, u.full, p, u.srv) IN
  /\ u.on /\ p \in u.todo
  /\ ws' = [ws EXCEPT ![w] = IF v = "server" THEN Taken(@, p, InTree(Newest(hn), p)) ELSE IF v = "client" THEN Stays(@, p, InTree(Newest(hn), p)) ELSE [@ EXCEPT !.man = {e \in @ : e[1] # p}]]
  /\ upd' = [upd EXCEPT ![w].todo = @ \ {p}] /\ act' = <<"step", w, p>> /\ UNCHANGED <<h, clk, edits>>
Done(w) ==
  /\ upd[w].on /\ upd[w].todo = {}
  /\ ws' = [ws EXCEPT ![w].rev = upd[w].n] /\ upd' = [upd EXCEPT ![w] = None]
  /\ act' = <<"done", w, "">> /\ UNCHANGED <<h, clk, edits>>
Crash(w) == upd[w].on /\ upd' = [upd EXCEPT ![w] = None] /\ act' = <<"crash", w, "">> /\ UNCHANGED <<h, ws, clk, edits>>
\* told: the client lived to hear of it
Commit(w, told) ==
  /\ ~upd[w].on /\ ws[w].rev = Len(h) /\ Len(h) < MaxHist /\ Changed(ws[w], P) # {} /\ Rows(ws[w], h, P) # {}
  /\ h' = Append(h, NewVersion(ws[w], h, P))
  /\ ws' = IF told THEN [ws EXCEPT ![w] = Told(@, P, Len(h) + 1)] ELSE ws
  /\ act' = <<"commit", w, "">> /\ UNCHANGED <<upd, clk, edits>>
Next == \E w \in W :
  \/ \E p \in P : Rm(w, p) \/ Rule(w, p) \/ Step(w, p) \/ \E x \in X : Edit(w, p, x)
  \/ \E srv \in SUBSET P, full \in BOOLEAN : Begin(w, full, srv)
  \/ Done(w) \/ Crash(w) \/ \E told \in BOOLEAN : Commit(w, told)
Spec == Init /\ [][Next]_vars
\* ---- what is wanted
\* a local change never goes away unless the user gave it up (C02)
Kept == [][\A w \in W, p \in P : At(ws[w].disk, p) # At(ws'[w].disk, p) =>
             \/ act'[1] = "edit"
             \/ /\ act'[1] = "step" /\ upd[w].on
                /\ (St(upd[w].from, p) \in {"none", "unchanged"} \/ p \in upd[w].srv \/ (St(upd[w].from, p) = "deleted" /\ At(ws'[w].disk, p) = {}))
                /\ ~Ignored(ws[w], p)]_vars
\* a finished update has the version, but for local changes and what is ignored (C03)
Up2Date == [][\A w \in W : act'[1] = "done" /\ act'[2] = w =>
               LET u == upd[w] f == u.from t == HTree(h, u.n) IN
               \A p \in P : \/ Ignored(f, p)
                            \/ St(f, p) \in {"new", "changed"} /\ p \notin u.srv
                            \/ St(f, p) = "deleted" /\ p \notin u.srv /\ At(ws'[w].disk, p) = {}
                            \/ Rules /\ ~u.full                 \* what was ignored before comes with the next full update only
                            \/ {e[1] : e \in At(ws'[w].disk, p)} = InTree(t, p)]_vars
\* no version changes a path which is pull-ignored by the working copy it comes from, and none contains more than its local changes (C06, C07)
Exact == [][act'[1] = "commit" =>
             LET w == act'[2] IN \A p \in P :
               IF St(ws[w], p) \in {"none", "unchanged"} \/ p \in ws[w].pign THEN InTree(Newest(h'), p) = InTree(Newest(h), p)
               ELSE InTree(Newest(h'), p) = {e[1] : e \in (IF Ignored(ws[w], p) THEN {} ELSE At(ws[w].disk, p))}]_vars
\* what a working copy believes to have is what the version it was updated to has (or, after part of an update, a later one), but for local changes
Honest == \A w \in W : \A e \in ws[w].man : St(ws[w], e[1]) = "unchanged" => \E k \in (IF ws[w].rev = 0 THEN 1 ELSE ws[w].rev)..Len(h) : <<e[1], e[2]>> \in HTree(h, k)
CleanMeansSame == \A w \in W : ~upd[w].on => \A p \in P : St(ws[w], p) = "unchanged" => {e[1] : e \in At(ws[w].disk, p)} = {e[1] : e \in At(ws[w].man, p)}
=============================================================================
