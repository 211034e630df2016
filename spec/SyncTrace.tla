------------------------------ MODULE SyncTrace ------------------------------
(* Recorded runs of the real client and server against Sync: every event is judged as a relation between what there was
   before and what there is after it.  h: the history seen so far, ws: the working copies as last seen. *)
EXTENDS Sync, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, n, h, ws
vars == <<t, i, n, h, ws>>
Ev == Traces[t].ev[i]
P == ToSet(Traces[t].paths)
Up == {<<e[1], e[2]>> : e \in ToSet(Traces[t].up)}
\* what a manifest without hashes means: its files, as the version has them which it was updated to
Meant(hh, r, pign, man) ==
  LET tree == HTree(hh, r) IN {<<x[1], CHOOSE y \in InTree(tree, x[1]) : TRUE, x[3]>> : x \in {m \in man : InTree(tree, m[1]) # {} /\ m[1] \notin pign}}
Nothing == [on |-> FALSE, disk |-> {}, man |-> {}, rev |-> 0, ign |-> {}, pign |-> {}, res |-> "", choices |-> {}]
Read(o, hh) == [on |-> o.on, disk |-> ToSet(o.disk), man |-> IF o.legacy THEN Meant(hh, o.rev, ToSet(o.pign), ToSet(o.man)) ELSE ToSet(o.man), rev |-> o.rev, ign |-> ToSet(o.ign), pign |-> ToSet(o.pign), res |-> o.res, choices |-> ToSet(o.choices)]
Vers(v) == [tree |-> ToSet(v.tree), chg |-> ToSet(v.chg), by |-> v.by, msg |-> v.msg]
New(e) == [k \in 1..Len(e.obs.newv) |-> Vers(e.obs.newv[k])]
V(b, clause, info) == IF b THEN {} ELSE {<<clause, ToString(info)>>}
\* ---- what has to be true of everything that is looked at
Generic(e, v) ==
  LET o == e.obs.w IN
  V(ws[e.w].on => v.on \/ e.op = "discard", "not_a_working_copy", "")
  \cup V(e.obs.err = "", "server", e.obs.err) \cup V(e.obs.kept, "history_changed", "")
  \cup V(o.err = "", "unusable", o.err) \cup V(o.stray = <<>>, "stray", o.stray)
  \cup V(o.legacy \/ (Len(o.status) = Cardinality(ToSet(o.status)) /\ ToSet(o.status) = {<<p, St(v, p)>> : p \in Changed(v, P)}), "status", <<o.status, {<<p, St(v, p)>> : p \in Changed(v, P)}>>)
  \cup V(~(o.legacy /\ e.k = "ok" /\ e.op \in {"update", "commit", "revert", "pullignore"}), "not_taken_over", "")
  \cup V({x[1] : x \in v.man} \subseteq P, "manifest_paths", o.man)
AllSame(w, v) == w.disk = v.disk /\ w.man = v.man /\ w.rev = v.rev
\* ---- update
Update(e, w, v, hh) ==
  LET full == e.full
      conf == Conflicts(w, hh, P, full)
      hasres == w.res # ""
      exact == /\ {c[1] : c \in w.choices} = conf /\ \A c \in w.choices : c[2] \in {"client", "server"}
               /\ Cardinality(w.choices) = Cardinality(conf)
      stop == conf # {} /\ (IF hasres THEN ~exact ELSE e.ans \notin {"client", "server"})
      srv == IF hasres THEN {p \in conf : <<p, "server">> \in w.choices} ELSE IF e.ans = "server" THEN conf ELSE {}
      did(p) == Did(w, v, hh, p, Verdict(w, hh, full, p, srv))
      \* files written by the user after it was killed: they stay, and are known to be local changes
      mods == {m[1] : m \in ToSet(e.mods)}
      users(p) == /\ {x[1] : x \in At(v.disk, p)} = {m[2] : m \in {q \in ToSet(e.mods) : q[1] = p}}
                  /\ St(v, p) \in {"new", "changed"} \/ Ignored(v, p)
      part == /\ \A p \in P : IF p \in mods THEN users(p) ELSE Same(w, v, p) \/ did(p)
              /\ v.rev \in {w.rev, Len(hh)}
              /\ (v.rev # w.rev => \A p \in P \ mods : did(p))
      reported == {<<p, M!ConflictStatus(St(w, p)), M!ConflictStatus(ServerSt(hh, w.rev, p, full))>> : p \in conf}
  IN V(e.k # "hang", "hang", e.msg)
     \cup V(New(e) = <<>>, "update_commits", e.obs.newv)
     \cup V(e.ul = <<>>, "update_uploads", e.ul)
     \* a file which is there already is not downloaded once more
     \cup V(\A p \in ToSet(e.dl) : ~(p \in P /\ St(w, p) = "unchanged" /\ InTree(Newest(hh), p) = {x[1] : x \in At(w.man, p)}), "downloaded_again", e.dl)
     \cup V(e.asked => ToSet(e.rep) = reported /\ Len(e.rep) = Cardinality(conf), "conflicts_reported", <<e.rep, reported>>)
     \cup V(conf # {} /\ ~hasres /\ e.k = "ok" => e.asked, "conflict_not_reported", conf)
     \cup (CASE e.k = "hang" -> {}
             [] stop ->
                  V(e.k # "ok", "unresolved_accepted", <<conf, w.choices>>) \cup V(IF mods = {} THEN AllSame(w, v) ELSE v.rev = w.rev /\ \A p \in P : IF p \in mods THEN users(p) ELSE Same(w, v, p), "refused_but_changed", <<w, v>>)
                  \cup V(hasres \/ v.res = "" \/ {c[1] : c \in v.choices} = conf, "half_a_resolution_file", v.choices)
                  \cup (IF hasres \/ e.ans # "manual" \/ e.fault \/ e.k = "crash" THEN {}
                        ELSE V({c[1] : c \in v.choices} = conf /\ Cardinality(v.choices) = Cardinality(conf), "resolution_file", v.choices)
                             \cup V(\A c \in ToSet(e.obs.w.cmp) : c[1] \in conf /\ InTree(Newest(hh), c[1]) = {c[2]}, "comparison_files", e.obs.w.cmp))
             [] e.k = "ok" ->
                  UNION {V(did(p), IF Verdict(w, hh, full, p, srv) = "server" THEN "not_updated" ELSE IF p \in Changed(w, P) THEN "local_work" ELSE "touched",
                           <<p, Category(w, hh, p, full), At(w.disk, p), At(w.man, p), At(v.disk, p), At(v.man, p), InTree(Newest(hh), p)>>) : p \in P}
                  \cup V(v.rev = Len(hh), "revision", <<v.rev, Len(hh)>>)
                  \cup V(conf # {} => v.res = "", "resolution_file_left", v.choices)
             [] e.k = "fail" /\ ~e.fault /\ mods = {} /\ ~Obstructed(w, hh, P, Up, full, srv) -> {<<"update_failed", e.msg>>}
             [] OTHER -> V(part, "partly_updated", <<w, v, {<<p, Verdict(w, hh, full, p, srv)>> : p \in P}>>)
                         \cup V(conf # {} /\ v.rev # w.rev => v.res = "", "resolution_file_left", v.choices))
\* ---- commit
Commit(e, w, v) ==
  LET mods == {m[1] : m \in ToSet(e.mods)}
      chg == Changed(w, P)
      nv == LET x == NewVersion(w, h, P) IN [tree |-> x.tree, chg |-> x.chg, by |-> e.by, msg |-> e.cm]
      new == New(e)
      told == Told(w, P, Len(h) + Len(new))
      right == IF Rows(w, h, P) = {} THEN <<>> ELSE <<nv>>
      \* files modified meanwhile: any content, as long as the working copy says afterwards that it has something else
      vary(p) == IF p \in mods THEN {p} ELSE {}
      okver == IF mods = {} THEN new = right
               ELSE /\ Len(new) = Len(right)
                    /\ Len(new) = 1 => /\ new[1].by = nv.by /\ new[1].msg = nv.msg
                                       /\ {x \in new[1].tree : x[1] \notin mods} = {x \in nv.tree : x[1] \notin mods}
                                       /\ {x \in new[1].chg : x[1] \notin mods} = {x \in nv.chg : x[1] \notin mods}
                                       /\ \A p \in mods : /\ (InTree(new[1].tree, p) = {}) = (InTree(nv.tree, p) = {})
                                                          /\ {x[1] : x \in new[1].chg} = {x[1] : x \in nv.chg}
      told2 == /\ v.rev = told.rev
               /\ \A p \in P \ mods : Same(told, v, p)
               /\ \A p \in mods : St(v, p) \in {"new", "changed", "deleted"} \/ InTree(HTree(h \o new, Len(h \o new)), p) = {x[1] : x \in At(v.disk, p)}
      kept == v.disk = w.disk \/ mods # {}
  IN V(e.k # "hang", "hang", e.msg)
     \cup V(kept, "commit_touches_files", <<w.disk, v.disk>>)
     \cup V(ToSet(e.ul) \subseteq chg, "uploaded", <<e.ul, chg>>)
     \cup V(e.dl = <<>>, "commit_downloads", e.dl)
     \cup (CASE e.k = "hang" -> {}
             [] e.k = "ok" /\ chg = {} -> V(new = <<>> /\ AllSame(w, v), "nothing_to_commit", <<e.how, e.obs.newv>>)
             [] e.k = "ok" /\ w.rev # Len(h) -> {<<"commit_without_update", "">>}
             [] e.k = "ok" -> V(e.how = "committed", "nothing_committed", chg) \cup V(okver, "version", <<e.obs.newv, nv>>) \cup V(told2, "after_commit", <<v, told>>)
             [] e.k = "fail" /\ ~e.fault /\ mods = {} -> V(w.rev # Len(h) \/ e.at = "commit", "commit_failed", e.msg) \cup V(new = <<>> /\ AllSame(w, v), "failed_but_changed", <<e.obs.newv, w, v>>)
             [] OTHER -> V(w.rev = Len(h) \/ new = <<>>, "commit_without_update", "")
                         \cup V(new = <<>> \/ okver, "version", <<e.obs.newv, nv>>)
                         \cup V((v.man = w.man /\ v.rev = w.rev) \/ (new # <<>> /\ told2), "after_crash", <<v, w>>))
\* ---- the other commands
Revert(e, w, v) ==
  LET k == IF e.v = 0 THEN w.rev ELSE e.v
      match == Reverting(w, h, k, ToSet(e.ps), e.full)
      gone == IF e.full THEN Removing(w, match) ELSE {}
      blocked == \E p \in match : \E q \in P : Clash(Up, p, q) /\ At(w.disk, q) # {}
      right(p) == IF p \in gone THEN RemovedRight(w, v, p) ELSE RevertedRight(w, v, h, k, match, p)
  IN V(e.k # "hang", "hang", e.msg) \cup V(New(e) = <<>>, "revert_commits", "") \cup V(v.rev = w.rev, "revert_revision", v.rev)
     \cup (CASE e.k = "ok" -> V(match # {} /\ e.ans # "no", "reverted_nothing", e.msg) \cup UNION {V(right(p), IF p \in match THEN "reverted" ELSE "revert_touches", <<p, k, v, w>>) : p \in P}
             [] e.k = "fail" /\ (match = {} \/ e.ans = "no") -> V(AllSame(w, v), "failed_but_changed", "")
             [] e.k = "fail" /\ ~e.fault /\ ~blocked -> {<<"revert_failed", e.msg>>}
             [] e.k = "hang" -> {}
             [] OTHER -> V(\A p \in P : Same(w, v, p) \/ right(p), "partly_reverted", <<w, v>>))
PullIgnore(e, w, v) ==
  LET hit == {p \in ToSet(e.ps) : At(w.man, p) # {}}
      dirty == Changed(w, P) # {} /\ ~e.full
      w2 == [w EXCEPT !.pign = @ \cup ToSet(e.ps), !.man = {x \in @ : x[1] \notin ToSet(e.ps)}, !.disk = IF e.ans = "delete" THEN {x \in @ : x[1] \notin hit} ELSE @]
  IN V(New(e) = <<>>, "pull_ignore_commits", "")
     \cup (CASE e.k = "ok" -> V(~dirty, "pull_ignore_unclean", "") \cup V(AllSame(w2, v) /\ v.pign = w2.pign, "pull_ignore", <<w2, v>>)
             [] e.k = "fail" /\ ~e.fault -> V(dirty, "pull_ignore_failed", e.msg) \cup V(AllSame(w, v) /\ v.pign = w.pign, "failed_but_changed", <<w, v>>)
             [] e.k = "hang" -> {<<"hang", "">>}
             \* interrupted: either there is no rule yet and nothing happened, or there is, and some of the files may be there still
             [] OTHER -> V(IF v.pign = w.pign THEN AllSame(w, v)
                           ELSE /\ v.pign = w2.pign /\ v.man = w2.man /\ v.rev = w2.rev
                                /\ \A p \in P : At(v.disk, p) \in {At(w.disk, p), At(w2.disk, p)}, "pull_ignore_interrupted", <<w, v>>))
Checkout(e, w, v) ==
  IF e.how # "ok" \/ w.on THEN V(e.k = "fail", "checkout_accepted", e.how) \cup V(e.how = "ok" \/ e.cfg, "refused_but_changed", e.how) \cup V(AllSame(w, v) /\ w.on = v.on, "refused_but_changed", e.how)
  ELSE IF e.k = "hang" THEN {<<"hang", "">>}
  \* interrupted: an update goes on with it, or it is started over
  ELSE IF e.k # "ok" /\ (e.fault \/ e.k = "crash")
  THEN V(~v.on \/ (e.cfg /\ \A p \in P : Same(w, v, p) \/ Clean2(v, p, InTree(Newest(h), p))), "partly_checked_out", v)
       \cup V(v.rev \in {0, Len(h)} /\ (v.rev = 0 \/ \A p \in P : Clean2(v, p, InTree(Newest(h), p))), "revision", v.rev)
  ELSE IF e.k # "ok" THEN {<<"checkout_failed", e.msg>>}
  ELSE V(v.on /\ e.cfg, "configuration", "") \cup V(\A p \in P : Clean2(v, p, InTree(Newest(h), p)), "checked_out", <<v, Newest(h)>>) \cup V(v.rev = Len(h), "revision", v.rev)
\* what the listing commands print
Lists(e, w, v) ==
  LET k == IF e.v = 0 THEN w.rev ELSE e.v
      right == CASE e.how = "files" -> {<<x[1]>> : x \in HTree(h, k)}
                 [] e.how = "pulled" -> {<<x[1]>> : x \in {y \in HTree(h, k) : y[1] \in w.pign}}
                 [] e.how = "changes" -> {<<x[1], x[2]>> : x \in (IF k \in 1..Len(h) THEN h[k].chg ELSE {})}
                 [] e.how = "ignored" -> {<<x[1]>> : x \in {y \in w.disk : Ignored(w, y[1])}}
                 [] e.how = "versions" -> {<<j, h[j].by, h[j].msg>> : j \in 1..Len(h)}
      \* not all versions if there are many, then the newest ones; in their order
      nl == Len(e.ls)
      most == IF nl < 50 THEN right ELSE {x \in right : x[1] > Len(h) - nl}
      ofver == e.how \in {"files", "pulled", "changes"}
  IN V(New(e) = <<>>, "list_commits", "") \cup V(AllSame(w, v), "list_changes", <<w, v>>)
     \cup (CASE e.k = "ok" /\ e.ans = "bad" -> {<<"list_accepted", e.msg>>}
             [] e.k = "ok" -> V(ToSet(e.ls) = (IF e.how = "versions" THEN most ELSE right) /\ nl = Cardinality(ToSet(e.ls)), "list_" \o e.how, <<e.ls, right>>)
                              \cup V(e.how = "versions" => \A j \in 1..nl : e.ls[j][1] = Len(h) - nl + j, "list_order", e.ls)
                              \cup V(ofver => k <= Len(h) /\ e.lv = k, "list_version", <<e.lv, k>>)
             [] e.k = "hang" -> {<<"hang", "">>}
             [] OTHER -> V(e.fault \/ e.ans = "bad" \/ (k \notin 1..Len(h) /\ e.how \notin {"ignored", "versions"}), "list_failed", e.msg))
User(e, w, v) == V(New(e) = <<>>, "history_grows", "") \cup V(v.man = Opened([w EXCEPT !.pign = v.pign]).man /\ v.rev = w.rev, "manifest_changes", <<w.man, v.man>>)
\* an old client's manifest instead of the present one's
Legacy(e, w, v) == V(New(e) = <<>>, "history_grows", "") \cup V(v.disk = w.disk /\ v.rev = w.rev /\ v.man = Meant(h, w.rev, w.pign, w.man), "manifest_changes", <<w.man, v.man>>)
\* a server which is too old for this client
Online == {"update", "commit", "revert", "pullignore", "checkout"}
Old(e, w, v) == V(e.k = "fail", "old_server", e.msg) \cup V(New(e) = <<>> /\ AllSame(w, v) /\ v.pign = w.pign /\ v.on = w.on, "refused_but_changed", <<w, v>>)
                \cup V(e.dl = <<>> /\ e.ul = <<>>, "old_server", <<e.dl, e.ul>>)
Judge(e, w, v) ==
  CASE e.old /\ (e.op \in Online \/ (e.op = "lists" /\ e.how # "ignored")) -> Old(e, w, v)
    [] e.op = "discard"    -> V(~v.on, "discard", "")
    [] e.op = "update"     -> Update(e, w, v, SubSeq(h, 1, e.n))
    [] e.op = "commit"     -> Commit(e, w, v)
    [] e.op = "revert"     -> Revert(e, w, v)
    [] e.op = "pullignore" -> PullIgnore(e, w, v)
    [] e.op = "lists"      -> Lists(e, w, v)
    [] e.op = "checkout"   -> Checkout(e, w, v)
    [] e.op = "legacy"     -> Legacy(e, w, v)
    [] OTHER -> User(e, w, v)
Emit(w) == \A x \in w : PrintT(<<"VIOL", ToJson([t |-> t, i |-> i, clause |-> x[1], info |-> x[2]])>>)
Step(e) ==
  LET v == Read(e.obs.w, h \o New(e))
      bad == Generic(e, v) \cup Judge(e, ws[e.w], v)
  IN /\ t' = t
     /\ IF bad # {} THEN Emit(bad) /\ i' = Len(Traces[t].ev) + 1 /\ n' = n + Len(Traces[t].ev) - i + 1 /\ UNCHANGED <<h, ws>>
        ELSE i' = i + 1 /\ n' = n + 1 /\ h' = h \o New(e) /\ ws' = [ws EXCEPT ![e.w] = v]
Blank(k) == [w \in ToSet(Traces[k].ws) |-> Nothing]
TraceInit == t = 1 /\ i = 1 /\ n = 0 /\ h = <<>> /\ ws = Blank(1)
TraceNext ==
  \/ t <= Len(Traces) /\ i <= Len(Traces[t].ev) /\ Step(Ev)
  \/ /\ t <= Len(Traces) /\ i > Len(Traces[t].ev)
     /\ t' = t + 1 /\ i' = 1 /\ n' = n /\ h' = <<>> /\ ws' = IF t = Len(Traces) THEN ws ELSE Blank(t + 1)
     /\ (t = Len(Traces) => PrintT(<<"DONE", ToJson([traces |-> t, events |-> n])>>))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
