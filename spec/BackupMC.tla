------------------------------ MODULE BackupMC ------------------------------
(* The procedure: versions with shared objects are stored object by object, newest version first, the pointer to the head before
   everything else, a mark after all objects of a version; a version with a mark is left out, an object which is there is left out.
   Any remote operation may be the last one of a run.  Versions are added between and during runs. *)
EXTENDS Backup, TLC
CONSTANTS MaxV, Obs, MaxRuns
VARIABLES objs, remote, marks, head, run, b, runs
vars == <<objs, remote, marks, head, run, b, runs>>
(* objs[v]: the objects of version v besides its commit object (a tree or file may be in several versions) *)
Need(v) == {<<o, 0>> : o \in objs[v]} \cup {<<"commit", v>>}
Idle == [on |-> FALSE, at |-> 0, start |-> 0, todo |-> {}, hd |-> 0]
N == Len(objs)
Init == objs = <<>> /\ remote = {} /\ marks = {} /\ head = 0 /\ run = Idle /\ b = Fresh /\ runs = 0
NewVersion == N < MaxV /\ \E o \in SUBSET Obs : o # {} /\ objs' = Append(objs, o) /\ b' = Commit(b, o) /\ UNCHANGED <<remote, marks, head, run, runs>>
Unmarked(n) == {v \in 1..n : v \notin marks}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
StartRun == /\ ~run.on /\ runs < MaxRuns /\ runs' = runs + 1
            /\ run' = [on |-> TRUE, at |-> 0, start |-> N, todo |-> Unmarked(N), hd |-> N]
            /\ UNCHANGED <<objs, remote, marks, head, b>>
Take == /\ run.on /\ run.at = 0 /\ run.todo # {}
        /\ LET v == Max(run.todo) IN run' = [run EXCEPT !.at = v]
        /\ UNCHANGED <<objs, remote, marks, head, b, runs>>
PutHead == run.on /\ run.at # 0 /\ run.at = run.hd /\ head # run.hd /\ head' = run.hd /\ UNCHANGED <<objs, remote, marks, run, b, runs>>
PutObject == /\ run.on /\ run.at # 0 /\ (run.at = run.hd => head = run.hd)
             /\ \E o \in Need(run.at) \ remote : remote' = remote \cup {o}
             /\ UNCHANGED <<objs, marks, head, run, b, runs>>
PutMark == /\ run.on /\ run.at # 0 /\ (run.at = run.hd => head = run.hd) /\ Need(run.at) \subseteq remote
           /\ marks' = marks \cup {run.at} /\ run' = [run EXCEPT !.at = 0, !.todo = @ \ {run.at}]
           /\ UNCHANGED <<objs, remote, head, b, runs>>
Finish == run.on /\ run.at = 0 /\ run.todo = {} /\ run' = Idle /\ b' = RunOk(b, run.start) /\ UNCHANGED <<objs, remote, marks, head, runs>>
Interrupt == run.on /\ run' = Idle /\ b' = RunCut(b) /\ UNCHANGED <<objs, remote, marks, head, runs>>
Next == NewVersion \/ StartRun \/ Take \/ PutHead \/ PutObject \/ PutMark \/ Finish \/ Interrupt
Spec == Init /\ [][Next]_vars
(* restoring: follow the versions from the head *)
Restores == head = 0 \/ \A v \in 1..head : Need(v) \subseteq remote
Restored == SubSeq(b.hist, 1, head)
WhenDone == ~run.on /\ MustRestore(b) => Restores /\ Restored \in MayBe(b)
IfItWorks == ~run.on /\ Restores => Restored \in MayBe(b)
MarkedIsThere == \A v \in marks : Need(v) \subseteq remote
TypeOK == b.safe <= N /\ Len(b.hist) = N
=============================================================================
