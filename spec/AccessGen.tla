----------------------------- MODULE AccessGen -----------------------------
(* Random walks through Access: mostly what honest clients do, mixed with tokens of others, of other repositories, from other
   addresses, old ones, signatures of other users, and so on. *)
EXTENDS Access, TLC, Json
CONSTANTS Depth, Evil    \* one in Evil requests is arbitrary
VARIABLES a, path
vars == <<a, path>>
Cs == {"c1", "c2", "c3"}
Ip(c) == IF c = "c2" THEN "i2" ELSE "i1"
Us == {"u1", "u2", "u3", "ghost"}
Rs == {"r1", "r2"}
Acc0 == {<<"u1", "r1">>, <<"u1", "r2">>, <<"u2", "r1">>, <<"u3", "r2">>}
OneIn(k) == RandomElement(1..k) = 1
E0(op, c, r) == [op |-> op, c |-> c, ip |-> Ip(c), r |-> r, u |-> "", tok |-> "", sig |-> "", new |-> "", d |-> 0, on |-> FALSE, rev |-> -1, back |-> 0, p |-> "", x |-> "", ps |-> <<>>, msg |-> ""]
Ids(r) == {c.id : c \in a.r[r].ch} \cup {s.id : s \in a.r[r].se}
AllIds == UNION {Ids(r) : r \in Rs} \cup {"bogus"}
Len1(s) == Len(s.st.hist)
New(k) == k \o ToString(Len(path))

Fill(e) ==   \* arguments of a request
  LET s == a.r[e.r].st IN
  CASE e.op = "Begin" -> [e EXCEPT !.rev = IF OneIn(8) /\ Len2(s) > 0 THEN Len2(s) - 1 ELSE Len2(s)]
    [] e.op = "Push" -> [e EXCEPT !.p = RandomElement({"a", "b"}), !.x = RandomElement({"x", "y"})]
    [] e.op = "Del" -> [e EXCEPT !.ps = <<RandomElement({"a", "b"})>>]
    [] e.op = "Commit" -> [e EXCEPT !.msg = "m1"]
    [] e.op = "Since" -> [e EXCEPT !.rev = RandomElement(0..Len2(s))]
    [] e.op \in {"Files", "Changes"} -> [e EXCEPT !.rev = IF Len2(s) = 0 THEN 0 ELSE RandomElement(1..Len2(s))]
    [] e.op = "Pull" -> [e EXCEPT !.p = RandomElement({"a", "b"}), !.rev = RandomElement(0..Len2(s))]
    [] OTHER -> e
Ops(s, c) == IF s.lock = c THEN {"Push", "Push", "Del", "Commit", "Commit", "Abort", "List", "Pull"} ELSE {"Begin", "Begin", "List", "Files", "Changes", "Since", "Pull", "Commit"}
Holders == {<<c, r>> \in Cs \X Rs : a.r[r].st.lock = c}
Honest ==    \* a request which makes sense
  LET cr == IF Holders # {} /\ ~OneIn(3) THEN RandomElement(Holders) ELSE RandomElement(Cs \X Rs)
      c == cr[1] r == cr[2]
      mine == {s \in a.r[r].se : s.ip = Ip(c)}
      chs == {x \in a.r[r].ch : x.ip = Ip(c)}
  IN IF mine # {} /\ ~OneIn(4) THEN Fill([E0(RandomElement(Ops(a.r[r].st, c)), c, r) EXCEPT !.tok = RandomElement(mine).id])
     ELSE IF chs # {} THEN LET u == RandomElement({x \in Us : <<x, r>> \in a.acc} \cup {"u1"})
                           IN [E0("Auth", c, r) EXCEPT !.u = u, !.sig = u, !.tok = RandomElement(chs).id, !.new = New("s")]
     ELSE [E0("BeginAuth", c, r) EXCEPT !.new = New("t")]
\* jumps which end close to the end of a challenge or session
Jumps == {1, 14, 33, 3601} \cup {d \in UNION {{x.exp - a.now - 1, x.exp - a.now, x.exp - a.now + 1} : x \in UNION {a.r[r].ch \cup a.r[r].se : r \in Rs}} : d > 0}
Odd ==
  LET c == RandomElement(Cs) r == RandomElement(Rs) k == RandomElement(1..11) u == RandomElement(Us) IN
  CASE k = 1 -> [E0("BeginAuth", c, r) EXCEPT !.new = New("t")]
    [] k \in {2, 3} -> [E0("Auth", c, r) EXCEPT !.u = u, !.sig = RandomElement(Us \cup {u}), !.tok = RandomElement(AllIds), !.new = New("s")]
    [] k = 4 -> [E0("AuthS", c, r) EXCEPT !.tok = RandomElement(AllIds)]
    [] k = 5 -> [E0("Tick", c, r) EXCEPT !.d = RandomElement(Jumps)]
    [] k = 11 -> [E0(RandomElement({"BeginAuth", "Auth", "AuthS", "List", "Pull", "Begin", "Commit"}), c, "nope") EXCEPT !.new = New("s"), !.u = u, !.sig = u, !.tok = RandomElement(AllIds), !.p = "a", !.rev = 0]
    [] k = 6 -> [E0("Perm", c, r) EXCEPT !.u = RandomElement({"u1", "u2", "u3"}), !.on = RandomElement(BOOLEAN)]
    [] k = 7 -> E0("Disc", c, r)
    [] OTHER -> Fill([E0(RandomElement({"Begin", "Push", "Del", "Commit", "Abort", "List", "Files", "Changes", "Since", "Pull"}), c, r) EXCEPT !.tok = RandomElement(AllIds)])
Init == a = Start0(Rs, Acc0) /\ path = <<>>
Next == /\ Len(path) < Depth
        /\ \E e \in {IF OneIn(Evil) THEN Odd ELSE Honest} :
             /\ a' = (CHOOSE o \in ADo(a, e) : TRUE).a
             /\ path' = Append(path, e)
Spec == Init /\ [][Next]_vars
PrintEnd == Len(path) = Depth => PrintT(<<"SCHED", ToJson(path)>>)
=============================================================================
