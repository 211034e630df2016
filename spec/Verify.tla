------------------------------- MODULE Verify -------------------------------
(* What verification may say about a repository, and what garbage collection may remove.
   objs: set of <<object, kind, state>> with kind in {"commit", "tree", "file"}, state in {"ok", "altered", "missing"};
   refs: set of <<object, object it needs>> as recorded before any damage;  head: {} or {object};
   headgone: there were commits but the head file does not name the newest one any more;
   keep: what an interrupted commit needs if it is resumed;  open: there is an interrupted commit *)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Close(_, _)
Close(S, refs) == LET M == S \cup {r[2] : r \in {q \in refs : q[1] \in S}} IN IF M = S THEN S ELSE Close(M, refs)
Needed(r) == Close(r.head, r.refs)
Bad(r) == {o[1] : o \in {x \in r.objs : x[3] # "ok"}}
Damaged(r) == r.headgone \/ Needed(r) \cap Bad(r) # {}
Spotless(r) == ~r.headgone /\ Bad(r) = {} /\ ~r.open
(* verdicts: "valid", "issues", "raised" (the command failed: it did not say that the repository is valid) *)
VerdictOK(r, v) == (Damaged(r) => v # "valid") /\ (Spotless(r) => v = "valid")

Stored(r) == {o[1] : o \in {x \in r.objs : x[3] # "missing"}}
(* garbage collection of a repository without damage: what has to stay, what has to go (tree and commit objects which
   an interrupted commit wrote may stay or go: they are written again) *)
MustStay(r) == Stored(r) \cap (Needed(r) \cup r.keep)
MustGo(r) == Stored(r) \ (Needed(r) \cup r.keep \cup r.logged)
=============================================================================
