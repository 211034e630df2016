------------------------------ MODULE StoreGen ------------------------------
(* Schedules of requests: walks through the state graph of Store (simulation), or one path to every state (breadth first). *)
EXTENDS StoreMC, Json
CONSTANTS Depth, Misuse, MinEnd, Rare, Sample    \* Misuse, Rare: one in how many refused requests, ends of connections is kept
VARIABLES path
gvars == <<s, crashes, base, path>>
Holder(e) == s.lock = e.c
Useful(e) ==
  CASE e.op = "Begin" -> s.lock = "" /\ e.rev = Len2(s)
    [] e.op \in {"Push", "Del", "Abort", "PushCut", "Disc", "Bad"} -> Holder(e)
    [] e.op = "Commit" -> Holder(e) /\ s.rows # {}
    [] e.op \in {"Restart", "Lose"} -> s.lock # "" \/ s.act.on
    [] e.op = "GC" -> s.lock = ""
    [] e.op = "Pull" -> e.rev > 0
    [] OTHER -> TRUE
OneIn(k) == RandomElement(1..k) = 1
Often(e) ==
  CASE e.op \in {"Begin", "Commit"} -> 1
    [] e.op = "Push" -> 2
    [] e.op = "Del" -> 2 * Cardinality(P)
    [] e.op \in {"Pull", "PushCut", "Bad"} -> 2 * Cardinality(P)
    [] OTHER -> Rare
Keep(e) == \/ Useful(e) /\ OneIn(Often(e))
           \/ ~Useful(e) /\ Misuse > 0 /\ OneIn(Misuse)
Short(e) == [op |-> e.op, c |-> e.c, back |-> Len2(s) - e.rev, p |-> e.p, x |-> e.x, ps |-> e.ps, msg |-> e.msg]
More == UNION {
    {[Req("Commit", cl) EXCEPT !.msg = m] : m \in {"m1", "m2"}}
    \cup {[Req("Del", cl) EXCEPT !.ps = <<p, q>>] : p \in P, q \in P}
    \cup {[Req("Bad", cl) EXCEPT !.x = k] : k \in {"noheader", "action", "garbage", "method", "nolength"}}
    \cup {[Req("Pull", cl) EXCEPT !.p = p, !.rev = IF Len2(s) < k THEN 0 ELSE Len2(s) - k] : p \in P, k \in 0..2}
    \cup {[Req("PushCut", cl) EXCEPT !.p = p, !.x = x] : p \in P, x \in X}
    : cl \in Clients}
GInit == Init /\ path = <<>>
GNext ==
  /\ Len(path) < Depth
  /\ \E e \in {f \in Requests \cup More : f.op \in Ops /\ (f.op = "Commit" => Len2(s) < MaxHist) /\ Keep(f)} :
       /\ \E o \in Do(s, e, FALSE) : s' = o.s
       /\ path' = Append(path, Short(e))
       /\ UNCHANGED <<crashes, base>>
GSpec == GInit /\ [][GNext]_gvars
View == s
\* simulation: print at the end of a walk;  breadth first: print the path to every state
PrintEnd == Len(path) = Depth => PrintT(<<"SCHED", ToJson(path)>>)
\* the same without chance: every sequence of requests
AGNext ==
  /\ Len(path) < Depth
  /\ \E e \in {f \in Requests \cup More : f.op \in Ops /\ (f.op = "Commit" => Len2(s) < MaxHist) /\ Useful(f)} :
       /\ \E o \in Do(s, e, FALSE) : s' = o.s
       /\ path' = Append(path, Short(e))
       /\ UNCHANGED <<crashes, base>>
ASpec == GInit /\ [][AGNext]_gvars
PrintTrans == OneIn(Sample) => PrintT(<<"SCHED", ToJson(path')>>)
PrintAll == Len(path) >= MinEnd => PrintT(<<"SCHED", ToJson(path)>>)
=============================================================================
