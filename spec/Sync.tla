-------------------------------- MODULE Sync --------------------------------
(* Working copies and the repository they share.
     history   sequence of versions [tree: set of <<path, content>>, chg: set of <<path, status, content>>]
     a working copy is
       disk    set of <<path, content, time>>          files
       man     set of <<path, content, time>>          manifest: content on the server, modification time when in sync
       rev     the version it was updated to (0: none)
       ign     paths which match its ignore rules      pign   paths which match its pull-ignore rules
   Everything here is visible from outside, so every command is given as a relation between what there was and what there is. *)
EXTENDS Store
M == INSTANCE Merge

HTree(h, n) == IF n \in 1..Len(h) THEN h[n].tree ELSE {}
Newest(h) == HTree(h, Len(h))
At(S, p) == {<<e[2], e[3]>> : e \in {d \in S : d[1] = p}}
InTree(t, p) == {e[2] : e \in {d \in t : d[1] = p}}
Ignored(w, p) == p \in w.ign \/ p \in w.pign
\* every command first forgets what is pull-ignored by now
Opened(w) == [w EXCEPT !.man = {e \in @ : e[1] \notin w.pign}]

\* ---- local changes
St(w, p) ==
  LET d == IF Ignored(w, p) THEN {} ELSE At(w.disk, p) m == At(w.man, p) IN
  IF d = {} /\ m = {} THEN "none" ELSE IF m = {} THEN "new" ELSE IF d = {} THEN "deleted"
  ELSE IF \E x \in d, y \in m : x[2] # y[2] THEN "changed" ELSE "unchanged"
Changed(w, P) == {p \in P : St(w, p) \in {"new", "changed", "deleted"}}

\* ---- update
\* what happened to a path on the server since revision r
RECURSIVE LastOf(_, _, _, _)
LastOf(h, r, n, p) ==
  IF n <= r THEN "none"
  ELSE LET c == {q \in h[n].chg : q[1] = p}
       IN IF c # {} THEN (CHOOSE q \in c : TRUE)[2] ELSE LastOf(h, r, n - 1, p)
ServerSt(h, r, p, full) ==
  LET s == LastOf(h, r, Len(h), p)
  IN IF s # "none" THEN s ELSE IF full /\ InTree(Newest(h), p) # {} THEN "unchanged" ELSE "none"
Category(w, h, p, full) ==
  LET c == St(w, p) IN M!Cat(ServerSt(h, w.rev, p, full), IF c = "unchanged" /\ ~full THEN "none" ELSE c)
Conflicts(w, h, P, full) == {p \in P : Category(w, h, p, full) = "conflict_files"}
\* what an update has to do about a path: srv are the conflicts the user resolved to the server
Verdict(w, h, full, p, srv) ==
  LET cat == Category(w, h, p, full)
      take == cat \in {"client_pull_files", "to_delete_on_client"} \/ (cat = "conflict_files" /\ p \in srv)
  IN IF cat = "conflict_files" /\ ~take THEN "client"
     ELSE IF ~take THEN "same"
     ELSE IF Ignored(w, p) THEN (IF InTree(Newest(h), p) = {} THEN "forget" ELSE "same")
     ELSE "server"
\* resolved to the client: the file stays a local change of what the server has, also when both added it
Kept2(w, v, x, p) ==
  /\ At(w.disk, p) = At(v.disk, p)
  /\ IF At(w.man, p) # {} \/ x = {} THEN At(w.man, p) = At(v.man, p)
     ELSE Cardinality(At(v.man, p)) = 1 /\ \A y \in At(v.man, p) : {y[1]} = x /\ \A d \in At(v.disk, p) : d[2] # y[2]
\* a path holds a version's content and is known to
Clean2(w, p, x) == IF x = {} THEN At(w.disk, p) = {} /\ At(w.man, p) = {}
                   ELSE {e[1] : e \in At(w.disk, p)} = x /\ At(w.man, p) = At(w.disk, p)
Same(w, v, p) == At(w.disk, p) = At(v.disk, p) /\ At(w.man, p) = At(v.man, p)
Did(w, v, h, p, verdict) ==
  CASE verdict = "same"   -> Same(w, v, p)
    [] verdict = "client" -> Kept2(w, v, InTree(Newest(h), p), p)
    [] verdict = "forget" -> At(w.disk, p) = At(v.disk, p) /\ At(v.man, p) = {}
    [] verdict = "server" -> Clean2(v, p, InTree(Newest(h), p))
\* files where directories have to be, or the reverse (up: set of <<path, path below it>>)
Clash(up, p, q) == <<p, q>> \in up \/ <<q, p>> \in up
Obstructed(w, h, P, up, full, srv) ==
  \E p \in P : /\ Verdict(w, h, full, p, srv) = "server" /\ InTree(Newest(h), p) # {}
               /\ \E q \in P : Clash(up, p, q) /\ At(w.disk, q) # {} /\ ~(Verdict(w, h, full, q, srv) = "server" /\ InTree(Newest(h), q) = {})

\* ---- commit
Rows(w, h, P) ==
  {<<p, IF InTree(Newest(h), p) = {} THEN "new" ELSE "changed", (CHOOSE e \in At(w.disk, p) : TRUE)[1]>> : p \in {q \in P : St(w, q) \in {"new", "changed"}}}
  \cup {<<p, "deleted", "">> : p \in {q \in P : St(w, q) = "deleted" /\ InTree(Newest(h), q) # {}}}
NewVersion(w, h, P) == [tree |-> Apply(Newest(h), Rows(w, h, P)), chg |-> Rows(w, h, P)]
\* the working copy after it
Told(w, P, n) ==
  [w EXCEPT !.man = {e \in @ : St(w, e[1]) \notin {"changed", "deleted"}} \cup {e \in w.disk : e[1] \in P /\ St(w, e[1]) \in {"new", "changed"}}, !.rev = n]

\* ---- revert to version k of the paths in match; all: of everything, then files which that version does not have are removed
Reverting(w, h, k, ps, all) == {p \in {e[1] : e \in HTree(h, k)} : (all \/ p \in ps) /\ p \notin w.pign}
Removing(w, match) == {e[1] : e \in Opened(w).man} \ match
RemovedRight(w, v, p) == At(v.disk, p) = {} /\ At(v.man, p) = At(w.man, p)
RevertedRight(w, v, h, k, match, p) ==
  IF p \notin match THEN Same(w, v, p)
  ELSE /\ {x[1] : x \in At(v.disk, p)} = InTree(HTree(h, k), p)
       /\ IF k = w.rev THEN At(v.man, p) = At(v.disk, p)
          ELSE At(v.man, p) = At(w.man, p) /\ St(v, p) \in {"new", "changed"}
=============================================================================
