------------------------------ MODULE StoreMC ------------------------------
(* The design of the repository: every history of requests and crashes of the configured clients, within the bounds. *)
EXTENDS Store, TLC
CONSTANTS Names,     \* the clients
          P, X, MaxHist, MaxCrash, Ops
VARIABLES s, crashes, base   \* base: what was stored when the active commit began (ghost)
vars == <<s, crashes, base>>

\* client, user, address
All == {<<"c1", "u1", "i1">>, <<"c2", "u2", "i1">>, <<"c3", "u1", "i2">>, <<"c4", "u1", "i1">>}
Clients == {c \in All : c[1] \in Names}

Req(op, cl) == [op |-> op, c |-> cl[1], u |-> cl[2], ip |-> cl[3], rev |-> Len2(s), p |-> "", x |-> "", ps |-> <<>>, msg |-> ""]
Requests ==
  UNION {
    {[Req("Begin", cl) EXCEPT !.rev = r] : r \in {Len2(s), IF Len2(s) = 0 THEN 0 ELSE Len2(s) - 1}}
    \cup {[Req("Push", cl) EXCEPT !.p = p, !.x = x] : p \in P, x \in X}
    \cup {[Req("Del", cl) EXCEPT !.ps = <<p>>] : p \in P}
    \cup {Req(o, cl) : o \in {"Commit", "Abort", "Disc", "Restart", "Lose", "GC"}}
    : cl \in Clients}
Allowed == {e \in Requests : e.op \in Ops /\ (e.op = "Commit" => Len2(s) < MaxHist)}

Base(e, s2) == IF e.op = "Lose" /\ ~s2.act.on THEN s2.objs ELSE
               IF s2.act.on /\ (~s.act.on \/ (e.op = "Begin" /\ ~Resumable(s, e.u, e.ip)))
               THEN (IF s.act.on THEN Rollback(s).objs ELSE s.objs) ELSE base
Init == s = Empty /\ crashes = 0 /\ base = {}
Next ==
  \E e \in Allowed :
    \/ \E o \in Do(s, e, FALSE) : s' = o.s /\ crashes' = crashes /\ base' = Base(e, o.s)
    \/ crashes < MaxCrash /\ \E o \in CrashDo(s, e, FALSE) : s' = o /\ crashes' = crashes + 1 /\ base' = Base(e, o)
Spec == Init /\ [][Next]_vars

\* S03: a version is its parent with exactly its changes
VersionsOK == \A k \in 1..Len2(s) :
  LET v == s.hist[k] par == TreeAt(s, k - 1) IN
  /\ v.tree = Apply(par, v.chg) /\ v.chg # {}
  /\ \A a, b \in v.chg : a[1] = b[1] => a = b
  /\ \A r \in v.chg : r[2] = "new" <=> r[1] \notin Paths(par)
\* S01, S02: everything any version needs is stored
NothingLost == Needed(s) \subseteq s.objs
AppendOnly == [][IsPrefix(s.hist, s'.hist) /\ Len2(s') <= Len2(s) + 1]_vars
\* S05: what can be resumed is stored
ResumeOK == \A cl \in Clients : Resumable(s, cl[2], cl[3]) => {r[3] : r \in Uploads(s.rows)} \subseteq s.objs
\* S04: after an abandoned commit the repository holds what it held before it
CleanIdle == ~s.act.on => s.rows = {} /\ s.gc = {}
NothingLeft == [][(s.act.on /\ ~s.act.done /\ ~s'.act.on /\ s'.hist = s.hist /\ ~s.ixA) => s'.objs \subseteq base']_vars
\* S07
Reports == \A i \in 0..Len2(s) : SinceOK(s, i, Len2(s), LastChanges(s, i, Len2(s)))
\* S08
LockOK == s.lock # "" => s.act.on /\ \E cl \in Clients : s.lock = cl[1] /\ s.act.u = cl[2] /\ s.act.ip = cl[3]
\* the next commit can always begin
CanBegin == s.lock = "" => \A cl \in Clients :
  \A o \in DoBegin(s, [Req("Begin", cl) EXCEPT !.rev = Len2(s)], FALSE) : o.k = {"ok"} /\ o.s.act.on /\ ~o.s.act.done
=============================================================================
