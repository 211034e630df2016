------------------------------ MODULE Journal ------------------------------
(* The working copy as its users see it: files, their manifest entries, transactions over them.
     files  set of <<path, content>>
     man    set of <<path, hash, current>>   current: the entry has the modification time of the file
   A transaction is a sequence of steps [o, p, q, x]: put p x, move p q, del p, bad p (a write whose data can not be fetched).
   At level "ds" a transaction is one operation which keeps the manifest as well. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Has(f, p) == \E e \in f : e[1] = p
Get(f, p) == (CHOOSE e \in f : e[1] = p)[2]
Without(f, p) == {e \in f : e[1] # p}
With(f, p, x) == Without(f, p) \cup {<<p, x>>}

\* does a step of a transaction work
CanDo(f, dirs, st) ==
  CASE st.o = "put"  -> st.p \notin dirs
    [] st.o = "move" -> Has(f, st.p) /\ st.q \notin dirs /\ st.p # st.q
    [] st.o = "del"  -> Has(f, st.p)
    [] st.o = "bad"  -> FALSE
Did(f, st) ==
  CASE st.o = "put"  -> With(f, st.p, st.x)
    [] st.o = "move" -> Without(With(f, st.q, Get(f, st.p)), st.p)
    [] st.o = "del"  -> Without(f, st.p)
RECURSIVE Run(_, _, _)
\* <<files, number of steps which worked>>
Run(f, dirs, steps) ==
  IF steps = <<>> THEN <<f, 0>>
  ELSE IF ~CanDo(f, dirs, Head(steps)) THEN <<f, 0>>
  ELSE LET r == Run(Did(f, Head(steps)), dirs, Tail(steps)) IN <<r[1], r[2] + 1>>

\* the manifest, kept by the operations of level ds: x is also the hash of the content x
Entry(m, p) == CHOOSE e \in m : e[1] = p
ManDid(f, m, st) ==
  LET wo == {e \in m : e[1] # st.p /\ (st.o # "move" \/ e[1] # st.q)} IN
  CASE st.o = "put"  -> wo \cup {<<st.p, st.x, TRUE>>}
    [] st.o = "move" -> wo \cup {<<st.q, Entry(m, st.p)[2], TRUE>>}
    [] st.o = "del"  -> wo
\* entries of files which were changed below the manifest: their times say nothing
Stale(m, steps) == {<<x[1], x[2], x[3] /\ \A k \in 1..Len(steps) : x[1] \notin {steps[k].p, steps[k].q}>> : x \in m}

\* the outcome of a transaction: [ok: steps which worked, err: an error is reported, files, man]
Outcome(f, m, dirs, e) ==
  LET r == Run(f, dirs, e.steps)
      all == r[2] = Len(e.steps) /\ (e.level = "ds" /\ e.steps[1].o = "move" => \E x \in m : x[1] = e.steps[1].p)
      done == all /\ e.end = "commit"
  IN [ok |-> IF all THEN Len(e.steps) ELSE IF e.level = "ds" THEN 0 ELSE r[2], err |-> ~all,
      files |-> IF done THEN r[1] ELSE f,
      man |-> IF ~done THEN m ELSE IF e.level = "ds" THEN ManDid(f, m, e.steps[1]) ELSE m]
=============================================================================
