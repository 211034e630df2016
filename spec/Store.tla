------------------------------- MODULE Store -------------------------------
(* A repository as the server keeps it: the history, the stored file objects, the active commit, the write lock.

   Trees, change lists and reports are sets of tuples, so that they can be read from JSON directly:
     tree  set of <<path, content>>          (at most one entry for a path)
     rows  set of <<path, status, content>>  the changes of the active commit, content is "" for deletions

   An operation is a record (op, c, u, ip, ...) as in the recorded traces.  Do gives what may happen when it completes,
   CrashDo what may be found after the server died at any point of it. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

NoUser == ""
NoAct  == [on |-> FALSE, u |-> NoUser, ip |-> "", done |-> FALSE]

Empty == [hist |-> <<>>,     \* versions, oldest first: [tree, chg, by, msg]
          objs |-> {},       \* contents which are stored
          act  |-> NoAct,    \* the active commit; done: it already became the head; nobody owns an abandoned one
          rows |-> {},       \* its changes
          gc   |-> {},       \* contents it stored (or was about to) which were not there before
          lock |-> "",       \* client which holds the write lock
          ixA  |-> FALSE,    \* the active commit may have left index objects
          ixO  |-> FALSE]    \* earlier ones may have

\* ---------------------------------------------------------------- versions
Len2(s)    == Len(s.hist)
TreeAt(s, n) == IF n = 0 THEN {} ELSE s.hist[n].tree
Tree(s)    == TreeAt(s, Len2(s))
Paths(tr)  == {e[1] : e \in tr}
Get(tr, p) == (CHOOSE e \in tr : e[1] = p)[2]
Contents(tr) == {e[2] : e \in tr}

Apply(tr, rows) ==
  LET touched == {r[1] : r \in rows} IN
  {e \in tr : e[1] \notin touched} \cup {<<r[1], r[3]>> : r \in {q \in rows : q[2] # "deleted"}}

Needed(s) == UNION {Contents(s.hist[k].tree) : k \in 1..Len2(s)}
Uploads(rows) == {r \in rows : r[2] # "deleted"}

\* ---------------------------------------------------------------- requests within a commit
PutRow(s, p, x) ==
  {r \in s.rows : r[1] # p} \cup {<<p, IF p \in Paths(Tree(s)) THEN "changed" ELSE "new", x>>}
DelRows(s, ps) ==
  {r \in s.rows : r[1] \notin ps} \cup {<<p, "deleted", "">> : p \in ps \cap Paths(Tree(s))}
Put(s, p, x) ==
  [s EXCEPT !.rows = PutRow(s, p, x), !.objs = @ \cup {x}, !.gc = IF x \in s.objs THEN @ ELSE @ \cup {x}]

\* ---------------------------------------------------------------- the ends of a commit
Clean(s) == [s EXCEPT !.act = NoAct, !.rows = {}, !.gc = {}, !.ixA = FALSE]
Rollback(s) ==
  IF s.act.done THEN [Clean(s) EXCEPT !.ixO = s.ixO \/ s.ixA]
  ELSE [Clean(s) EXCEPT !.objs = @ \ s.gc]
Version(s, by, msg) == [tree |-> Apply(Tree(s), s.rows), chg |-> s.rows, by |-> by, msg |-> msg]
Committed(s, by, msg) == [s EXCEPT !.hist = Append(@, Version(s, by, msg)), !.act.done = TRUE]
Finish(s, by, msg) == [Clean(Committed(s, by, msg)) EXCEPT !.ixO = s.ixO \/ s.ixA]

Resumable(s, u, ip) == s.act.on /\ ~s.act.done /\ s.act.u = u /\ s.act.ip = ip
Fresh(s, u, ip) ==
  LET r == IF s.act.on THEN Rollback(s) ELSE s
  IN [r EXCEPT !.act = [on |-> TRUE, u |-> u, ip |-> ip, done |-> FALSE], !.rows = {}, !.gc = {}]
Resumed(s) == [s EXCEPT !.rows = Uploads(@)]

\* ---------------------------------------------------------------- outcomes: [s: state, k: allowed answers, part: reported uploads]
Out(s, k) == [s |-> s, k |-> k, part |-> {}]
Refused(s) == Out(s, {"lock", "nocommit", "fail"})

DoBegin(s, e, busy) ==
  IF busy THEN {Out(s, {"lock"})}
  ELSE IF s.lock # "" THEN {Out(s, IF e.rev # Len2(s) THEN {"lock", "update"} ELSE {"lock"})}
  ELSE IF e.rev # Len2(s) THEN {Out(IF s.act.on THEN Rollback(s) ELSE s, {"update"})}
  ELSE IF Resumable(s, e.u, e.ip) THEN {[s |-> [Resumed(s) EXCEPT !.lock = e.c], k |-> {"ok"}, part |-> Uploads(s.rows)]}
  ELSE {Out([Fresh(s, e.u, e.ip) EXCEPT !.lock = e.c], {"ok"})}

DoPush(s, e) == IF s.lock # e.c THEN {Refused(s)} ELSE {Out(Put(s, e.p, e.x), {"ok"})}
DoDel(s, e)  == IF s.lock # e.c THEN {Refused(s)} ELSE {Out([s EXCEPT !.rows = DelRows(s, ToSet(e.ps))], {"ok"})}
DoCommit(s, e) ==
  IF s.lock # e.c THEN {Refused(s)}
  ELSE IF s.rows = {} THEN {Out([s EXCEPT !.lock = ""], {"ok"})}
  ELSE {Out([Finish(s, e.u, e.msg) EXCEPT !.lock = ""], {"ok"})}
DoAbort(s, e) == IF s.lock # e.c THEN {Refused(s)} ELSE {Out([Rollback(s) EXCEPT !.lock = ""], {"ok"})}
\* a file of a version
DoPull(s, e) == IF e.rev > 0 /\ e.p \in Paths(TreeAt(s, e.rev)) THEN {Out(s, {"ok"})} ELSE {Out(s, {"fail", "gone", "garbled"})}
\* the connection ends, whatever it was doing
DoDisc(s, e)  == {Out(IF s.lock = e.c THEN [s EXCEPT !.lock = ""] ELSE s, {"ok", "gone"})}
DoRestart(s)  == {Out([s EXCEPT !.lock = ""], {"ok", "gone"})}
\* the server starts again and its transient database is lost: so is the active commit; what it stored stays until it is collected
DoLose(s)     == {Out([Clean(s) EXCEPT !.lock = "", !.ixO = s.ixO \/ s.ixA], {"ok", "gone"})}
\* garbage collection by the administrator
Collected(s) == [s EXCEPT !.objs = @ \cap (Needed(s) \cup {r[3] : r \in Uploads(s.rows)}), !.ixA = FALSE, !.ixO = FALSE]
DoGC(s) == IF s.lock # "" THEN {Out(s, {"fail"})}
           ELSE IF Len2(s) = 0 /\ (s.ixA \/ s.ixO) THEN {Out(s, {"fail"}), Out(Collected(s), {"ok"})}
           ELSE {Out(Collected(s), {"ok"})}

Do(s, e, busy) ==
  CASE e.op = "Begin"   -> DoBegin(s, e, busy)
    [] e.op = "Push"    -> DoPush(s, e)
    [] e.op = "Del"     -> DoDel(s, e)
    [] e.op = "Commit"  -> DoCommit(s, e)
    [] e.op = "Abort"   -> DoAbort(s, e)
    [] e.op = "Disc"    -> DoDisc(s, e)
    [] e.op = "PushCut" -> DoDisc(s, e)      \* the client goes away in the middle of an upload
    [] e.op = "Bad"     -> DoDisc(s, e)      \* a request the server can not make sense of: it ends the connection
    [] e.op = "Pull"    -> DoPull(s, e)
    [] e.op = "Restart" -> DoRestart(s)
    [] e.op = "Lose"    -> DoLose(s)
    [] e.op = "GC"      -> DoGC(s)
    [] e.op = "Look"    -> {Out(s, {"ok"})}

\* ---------------------------------------------------------------- what may be found after a crash in the operation
Abandoning(s) == {[s EXCEPT !.act.u = NoUser, !.objs = @ \ D] : D \in SUBSET s.gc}
CrashRollback(s) ==
  IF s.act.done THEN {s, [s EXCEPT !.act.u = NoUser], Rollback(s)} ELSE {s, Rollback(s)} \cup Abandoning(s)

CrashBegin(s, e, busy) ==
  IF busy \/ s.lock # "" THEN {s}
  ELSE IF e.rev # Len2(s) THEN (IF s.act.on THEN CrashRollback(s) ELSE {s})
  ELSE IF Resumable(s, e.u, e.ip) THEN {s, Resumed(s)}
  ELSE (IF s.act.on THEN CrashRollback(s) ELSE {s}) \cup {Fresh(s, e.u, e.ip)}
CrashPush(s, e) ==
  IF s.lock # e.c THEN {s}
  ELSE LET p == Put(s, e.p, e.x) IN {s, p, [p EXCEPT !.rows = s.rows], [s EXCEPT !.gc = p.gc]}
CrashDel(s, e) == IF s.lock # e.c THEN {s} ELSE {s, [s EXCEPT !.rows = DelRows(s, ToSet(e.ps))]}
CrashCommit(s, e) ==
  IF s.lock # e.c \/ s.rows = {} THEN {s}
  ELSE {[s EXCEPT !.ixA = TRUE], Committed(s, e.u, e.msg), Finish(s, e.u, e.msg)}
CrashAbort(s, e) == IF s.lock # e.c THEN {s} ELSE CrashRollback(s)
CrashGC(s) ==
  IF s.lock # "" THEN {s}
  ELSE {[s EXCEPT !.objs = @ \ D] : D \in SUBSET (s.objs \ Collected(s).objs)} \cup {Collected(s)}

Partly(s, e, busy) ==
  (CASE e.op = "Begin"   -> CrashBegin(s, e, busy)
     [] e.op = "Push"    -> CrashPush(s, e)
     [] e.op = "Del"     -> CrashDel(s, e)
     [] e.op = "Commit"  -> CrashCommit(s, e)
     [] e.op = "Abort"   -> CrashAbort(s, e)
     [] e.op = "GC"      -> CrashGC(s)
     [] OTHER            -> {s}) \cup {d.s : d \in Do(s, e, busy)}
CrashDo(s, e, busy) == {[o EXCEPT !.lock = ""] : o \in Partly(s, e, busy)}
\* a request during which the file system failed, and which failed: its client is disconnected, or told so; the server goes on
FaultDo(s, e, busy) ==
  IF e.op = "GC" THEN Partly(s, e, busy)
  ELSE IF s.lock \notin {"", e.c} THEN {s}
  ELSE {[o EXCEPT !.lock = l] : o \in Partly(s, e, busy), l \in IF e.res.k = "gone" THEN {""} ELSE {"", e.c}}

\* ---------------------------------------------------------------- change reports
\* the report of the changes from version i to version j, as a set of <<path, "pull" or "deleted", content>>
SinceOK(s, i, j, R) ==
  LET a == TreeAt(s, i) b == TreeAt(s, j) IN
  /\ \A r \in R : /\ r[2] \in {"pull", "deleted"}
                  /\ r[2] = "deleted" <=> r[1] \notin Paths(b)
                  /\ r[2] = "pull" => <<r[1], r[3]>> \in b
                  /\ \E k \in (i + 1)..j : r[1] \in {q[1] : q \in s.hist[k].chg}
  /\ \A p \in Paths(a) \cup Paths(b) :
       ({e \in a : e[1] = p} # {e \in b : e[1] = p}) => p \in {r[1] : r \in R}
  /\ i = j => R = {}

\* what the server computes: the last change of every path
RECURSIVE LastChanges(_, _, _)
LastChanges(s, i, j) ==
  IF i >= j THEN {}
  ELSE LET before == LastChanges(s, i, j - 1) ch == s.hist[j].chg
       IN {r \in before : r[1] \notin {q[1] : q \in ch}} \cup {<<q[1], IF q[2] = "deleted" THEN "deleted" ELSE "pull", q[3]>> : q \in ch}
=============================================================================
