------------------------------ MODULE WcLockMC ------------------------------
(* The design: an advisory lock on a file in the working copy, taken without waiting right at the start, held by the open file
and released by the system when the process ends for whatever reason.  Interf: does a process keep the file open for as long as
it works (otherwise the lock is lost early and the invariant fails). *)
EXTENDS WcLock
CONSTANTS P, W, Keep
VARIABLES pc, lock, holder, refused, val, mine
vars == <<pc, lock, holder, refused, val, mine>>
None == "none"
Init == pc = [p \in P |-> "idle"] /\ lock = [w \in W |-> None] /\ holder = [w \in W |-> {}] /\ refused = {} /\ val = [w \in W |-> 0] /\ mine = [p \in P |-> 0]
At(p) == CHOOSE w \in W : p \in holder[w]
Enter(p, w) ==
  /\ pc[p] = "idle"
  /\ IF lock[w] = None
     THEN /\ pc' = [pc EXCEPT ![p] = "read"] /\ lock' = [lock EXCEPT ![w] = p] /\ holder' = Started(holder, p, w) /\ refused' = refused \ {p}
     ELSE /\ refused' = refused \cup {p} /\ UNCHANGED <<pc, lock, holder>>
  /\ UNCHANGED <<val, mine>>
Drop(p) == ~Keep /\ pc[p] = "read" /\ lock' = [w \in W |-> IF lock[w] = p THEN None ELSE lock[w]] /\ UNCHANGED <<pc, holder, refused, val, mine>>
Read(p) == pc[p] = "read" /\ mine' = [mine EXCEPT ![p] = val[At(p)]] /\ pc' = [pc EXCEPT ![p] = "write"] /\ UNCHANGED <<lock, holder, refused, val>>
Write(p) == pc[p] = "write" /\ val' = [val EXCEPT ![At(p)] = (mine[p] + 1) % 3] /\ pc' = [pc EXCEPT ![p] = "end"] /\ UNCHANGED <<lock, holder, refused, mine>>
End(p) == pc[p] # "idle" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ lock' = [w \in W |-> IF lock[w] = p THEN None ELSE lock[w]] /\ holder' = Gone(holder, p) /\ UNCHANGED <<refused, val, mine>>
Next == \E p \in P : (\E w \in W : Enter(p, w)) \/ Drop(p) \/ Read(p) \/ Write(p) \/ End(p)
Spec == Init /\ [][Next]_vars
OneUser == AtMostOne(holder)
NoLostChange == \A p \in P : pc[p] = "write" => mine[p] = val[At(p)]       \* nobody writes over what it has not read
Admits == \A p \in P, w \in W : Free(holder, w) => lock[w] = None          \* a free working copy can always be used
=============================================================================
