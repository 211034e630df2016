------------------------------ MODULE JournalMC ------------------------------
(* The undo journal of the working copy, step by step: every journal record and every change of a file is a step of its own, the
   process may die between any two of them, also while it rolls back, and again while it rolls back after that.
   Refines Journal: when the journal is empty, the files are those of before or after the transaction. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS P, X, Tmp, Bak, MaxOps, MaxTxn, MaxCrash
None == "none"  Half == "half"
VARIABLES fs,     \* name -> content, None, or Half written
          jour,   \* undo records, on disk
          prog,   \* what is left to do of the current operation (volatile)
          mode,   \* idle, txn, clean (after the commit point), roll
          snap,   \* the files when the transaction began
          want,   \* what the files should become
          ops, txns, crashes
vars == <<fs, jour, prog, mode, snap, want, ops, txns, crashes>>
Names == P \cup Tmp \cup Bak
Files == [p \in P |-> fs[p]]
Free(S, f) == {t \in S : f[t] = None}
Move(f, a, b) == IF f[a] = None THEN f ELSE [f EXCEPT ![b] = f[a], ![a] = None]

Init == /\ fs \in {[n \in Names |-> IF n \in P THEN i[n] ELSE None] : i \in [P -> X \cup {None}]}
        /\ jour = <<>> /\ prog = <<>> /\ mode = "idle" /\ snap = Files /\ want = Files /\ ops = 0 /\ txns = 0 /\ crashes = 0

Begin == /\ mode = "idle" /\ jour = <<>> /\ txns < MaxTxn
         /\ mode' = "txn" /\ snap' = Files /\ want' = Files /\ ops' = 0 /\ txns' = txns + 1 /\ UNCHANGED <<fs, jour, prog, crashes>>

Save(p, t) == IF fs[p] = None THEN <<>> ELSE <<<<"log", <<"move", t, p>>>>, <<"do", <<"move", p, t>>>>>>
Ready == mode = "txn" /\ prog = <<>> /\ ops < MaxOps
Put == Ready /\ \E p \in P, x \in X, t \in Free(Tmp, fs) :
         /\ prog' = Save(p, t) \o <<<<"log", <<"backup", p>>>>, <<"do", <<"write", p, Half>>>>, <<"do", <<"write", p, x>>>>>>
         /\ want' = [want EXCEPT ![p] = x] /\ ops' = ops + 1 /\ UNCHANGED <<fs, jour, mode, snap, txns, crashes>>
MoveOp == Ready /\ \E s, d \in P, t \in Free(Tmp, fs) : s # d /\ fs[s] # None
         /\ prog' = Save(d, t) \o <<<<"log", <<"move", d, s>>>>, <<"do", <<"move", s, d>>>>>>
         /\ want' = [want EXCEPT ![d] = want[s], ![s] = None] /\ ops' = ops + 1 /\ UNCHANGED <<fs, jour, mode, snap, txns, crashes>>
Del == Ready /\ \E p \in P, t \in Free(Tmp, fs) : fs[p] # None
         /\ prog' = Save(p, t) /\ want' = [want EXCEPT ![p] = None] /\ ops' = ops + 1 /\ UNCHANGED <<fs, jour, mode, snap, txns, crashes>>

\* undo records may name what is not there (any more)
Do(c, f) == CASE c[1] = "move" -> Move(f, c[2], c[3])
              [] c[1] = "write" -> [f EXCEPT ![c[2]] = c[3]]
              [] c[1] = "backup" -> IF Free(Bak, f) = {} THEN [f EXCEPT ![c[2]] = None] ELSE Move(f, c[2], CHOOSE b \in Free(Bak, f) : TRUE)
Work == /\ mode = "txn" /\ prog # <<>> /\ prog' = Tail(prog)
        /\ LET c == Head(prog) IN
           IF c[1] = "log" THEN jour' = Append(jour, c[2]) /\ fs' = fs ELSE jour' = jour /\ fs' = Do(c[2], fs)
        /\ UNCHANGED <<mode, snap, want, ops, txns, crashes>>
Commit == /\ mode = "txn" /\ prog = <<>> /\ jour' = <<>> /\ mode' = "clean" /\ UNCHANGED <<fs, prog, snap, want, ops, txns, crashes>>
Clean == /\ mode = "clean"
         /\ \/ \E t \in Tmp : fs[t] # None /\ fs' = [fs EXCEPT ![t] = None] /\ mode' = mode
            \/ (\A t \in Tmp : fs[t] = None) /\ mode' = "idle" /\ fs' = fs
         /\ UNCHANGED <<jour, prog, snap, want, ops, txns, crashes>>
Fail == mode = "txn" /\ prog' = <<>> /\ mode' = "roll" /\ UNCHANGED <<fs, jour, snap, want, ops, txns, crashes>>   \* an error
\* rolling back: undo the last record, then remove it
Undo == /\ mode = "roll" /\ prog = <<>> /\ jour # <<>>
        /\ fs' = Do(jour[Len(jour)], fs) /\ prog' = <<<<"drop">>>> /\ UNCHANGED <<jour, mode, snap, want, ops, txns, crashes>>
Drop == /\ mode = "roll" /\ prog # <<>> /\ jour' = SubSeq(jour, 1, Len(jour) - 1) /\ prog' = <<>>
        /\ UNCHANGED <<fs, mode, snap, want, ops, txns, crashes>>
Undone == /\ mode = "roll" /\ prog = <<>> /\ jour = <<>> /\ mode' = "idle" /\ want' = snap /\ UNCHANGED <<fs, jour, prog, snap, ops, txns, crashes>>
Crash == /\ mode # "idle" /\ crashes < MaxCrash /\ crashes' = crashes + 1 /\ prog' = <<>>
         /\ mode' = IF jour = <<>> THEN "idle" ELSE "roll"
         /\ want' = IF mode = "clean" \/ jour # <<>> THEN want ELSE snap
         /\ UNCHANGED <<fs, jour, snap, ops, txns>>
Next == Begin \/ Put \/ MoveOp \/ Del \/ Work \/ Commit \/ Clean \/ Fail \/ Undo \/ Drop \/ Undone \/ Crash
Spec == Init /\ [][Next]_vars

AllOrNothing == mode \in {"idle", "clean"} => Files = want
Kept == mode \in {"txn", "roll"} => \A p \in P : snap[p] # None => \E n \in Names : fs[n] = snap[p]
Undoable == mode = "roll" /\ jour = <<>> /\ prog = <<>> => Files = snap
=============================================================================
