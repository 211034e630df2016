------------------------------ MODULE BackupGen ------------------------------
(* Walks: commits, backup runs with a fault at some remote operation or none, restores, garbage collections, aborted commits *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Len0, Len1
VARIABLE s
Kinds == {"new", "change", "delete", "same", "empty", "copy", "deep", "onlyempty"}
Faults == {"none", "error", "after", "kill", "killafter", "ioerror", "commit"}
Op == [op : {"commit"}, repo : {"r", "r2"}, kind : Kinds] \cup [op : {"run"}, fault : Faults] \cup [op : {"restore"}, again : BOOLEAN, fault : {"none", "none2", "error", "kill", "flip", "password"}]
      \cup {[op |-> "gc"], [op |-> "abort"], [op |-> "losesalt"], [op |-> "chunk"]}
Init == s = <<>>
Next == /\ Len(s) < Len1
        /\ \E o \in Op : s' = Append(s, o)
        /\ (Len(s') = Len1 => PrintT(<<"SCHED", ToJson(s')>>))
Spec == Init /\ [][Next]_s
=============================================================================
