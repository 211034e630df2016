------------------------------ MODULE AccessMC ------------------------------
(* The access rules themselves, over all short histories of two users, two addresses, two repositories. *)
EXTENDS Access, TLC
CONSTANTS MaxSteps, MaxTok
VARIABLES a, step, last, made      \* made: <<challenge, session, repository, user, address>> of every login which succeeded
vars == <<a, step, last, made>>
Cs == {"c1", "c2"}
Ip(c) == IF c = "c2" THEN "i2" ELSE "i1"
Rs == {"r1", "r2"}
Us == {"u1", "u2"}
Acc0 == {<<"u1", "r1">>, <<"u1", "r2">>, <<"u2", "r1">>}
E0(op, c, r) == [op |-> op, c |-> c, ip |-> Ip(c), r |-> r, u |-> "", tok |-> "", sig |-> "", new |-> "", d |-> 0, on |-> FALSE, rev |-> 0, back |-> 0, p |-> "a", x |-> "x", ps |-> <<>>, msg |-> ""]
Chs == UNION {a.r[r].ch : r \in Rs}
Ses == UNION {a.r[r].se : r \in Rs}
Ids == {x.id : x \in Chs} \cup {x.id : x \in Ses}
\* names of challenges and sessions are not given out again
NewId(k) == k \o ToString(step)
Issued == Cardinality(Ids)
Events ==
  {[E0("BeginAuth", c, r) EXCEPT !.new = NewId("t")] : c \in Cs, r \in Rs}
  \cup {[E0("Auth", c, r) EXCEPT !.u = u, !.sig = v, !.tok = i, !.new = NewId("s")] : c \in Cs, r \in Rs, u \in Us, v \in {"u1"}, i \in {x.id : x \in Chs}}
  \cup {[E0("Tick", "c1", "r1") EXCEPT !.d = d] : d \in {31, 7201}}
  \cup {[E0("Perm", "c1", "r1") EXCEPT !.u = "u1", !.on = FALSE]}
  \cup {[E0(op, c, r) EXCEPT !.tok = i] : op \in {"Begin", "Push", "Commit"}, c \in Cs, r \in Rs, i \in {x.id : x \in Ses}}
Init == a = Start0(Rs, Acc0) /\ step = 0 /\ last = [e |-> E0("Tick", "c1", "r1"), before |-> Start0(Rs, Acc0), k |-> {}] /\ made = {}
Next == /\ step < MaxSteps
        /\ \E e \in Events : \E o \in ADo(a, e) :
             /\ a' = o.a /\ step' = step + 1 /\ last' = [e |-> e, before |-> a, k |-> o.k]
             /\ Cardinality(UNION {{x.id : x \in o.a.r[r].ch \cup o.a.r[r].se} : r \in Rs}) <= MaxTok
             /\ made' = IF e.op = "Auth" /\ o.k = {"ok"} THEN made \cup {<<e.tok, e.new, e.r, e.u, e.ip>>} ELSE made
Spec == Init /\ [][Next]_vars
\* ---- what is wanted, said without the definitions above
B == last.before
E == last.e
OK == last.k = {"ok"}
Once       == \A m, n \in made : m[1] = n[1] => m = n
FromChallenge == \A r \in Rs : \A s \in a.r[r].se : \E m \in made : m[2] = s.id /\ m[3] = r /\ m[4] = s.u /\ m[5] = s.ip
LoginRight == E.op = "Auth" /\ OK => /\ E.sig = E.u /\ <<E.u, E.r>> \in B.acc
                                     /\ \E c \in B.r[E.r].ch : c.id = E.tok /\ c.ip = E.ip /\ c.exp >= B.now
Requests == {"Begin", "Push", "Commit"}
ServedRight == E.op \in Requests /\ (OK \/ \E r \in Rs : a.r[r].st # B.r[r].st) =>
                 \E s \in B.r[E.r].se : /\ s.id = E.tok /\ s.ip = E.ip /\ <<s.u, E.r>> \in B.acc
                                        /\ (s.exp >= B.now \/ (B.r[E.r].own = s.id /\ B.r[E.r].st.act.on))
OnlyThere == E.op \in Requests => \A r \in Rs \ {E.r} : a.r[r] = B.r[r]
OwnedOrNot == \A r \in Rs : a.r[r].own # "" => a.r[r].st.act.on
=============================================================================
