------------------------------- MODULE Backup -------------------------------
(* Backups of repositories.  For each repository: hist (its versions, oldest first, each a set of <<path, content>>), safe (the number
   of versions which the last completed run has stored) and dirty (a run was interrupted which had something to store). *)
EXTENDS Naturals, Sequences, FiniteSets
Fresh == [hist |-> <<>>, safe |-> 0, dirty |-> FALSE]
Commit(s, tree) == [s EXCEPT !.hist = Append(@, tree)]
(* a run which began when there were n versions *)
RunOk(s, n) == [s EXCEPT !.safe = n, !.dirty = FALSE]
RunCut(s) == [s EXCEPT !.dirty = @ \/ Len(s.hist) > s.safe]
MustRestore(s) == ~s.dirty
(* what a restore may give: the versions up to one which is not older than the last stored one *)
MayBe(s) == {SubSeq(s.hist, 1, m) : m \in s.safe..Len(s.hist)}
=============================================================================
