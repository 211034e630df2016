------------------------------- MODULE Merge -------------------------------
(* The three-way merge of the changes on the server (since the revision of the client) and of the local changes.
   Cat is the documented table.  ThreeWay states what the table is for: it is checked by TLC over all abstract files
   (base, local and server content), see MergeMC. *)
EXTENDS Integers, Sequences, FiniteSets

Status  == {"none", "new", "changed", "deleted", "unchanged"}
Touched == {"new", "changed"}

\* category of a path, by its status on the server (s) and on the client (c)
Cat(s, c) ==
  CASE s = "none" /\ c = "none"                            -> "none"
    [] s = "none" /\ c \in Touched                         -> "client_push_files"
    [] s = "none" /\ c = "deleted"                         -> "to_delete_on_server"
    [] s = "none" /\ c = "unchanged"                       -> "error_files"
    [] s = "unchanged" /\ c = "none"                       -> "client_pull_files"
    [] s = "unchanged" /\ c \in Touched                    -> "client_push_files"
    [] s = "unchanged" /\ c = "deleted"                    -> "to_delete_on_server"
    [] s = "unchanged" /\ c = "unchanged"                  -> "no_op"
    [] s \in Touched /\ c \in {"none", "unchanged"}        -> "client_pull_files"
    [] s \in Touched /\ c \in Touched \cup {"deleted"}     -> "conflict_files"
    [] s = "deleted" /\ c \in {"none", "unchanged"}        -> "to_delete_on_client"
    [] s = "deleted" /\ c \in Touched                      -> "conflict_files"
    [] s = "deleted" /\ c = "deleted"                      -> "to_delete_on_client"

Categories == {"client_push_files", "client_pull_files", "to_delete_on_client", "to_delete_on_server",
               "conflict_files", "error_files", "no_op"}

\* the statuses a conflict is reported with
ConflictStatus(x) == IF x = "deleted" THEN "Deleted" ELSE "Changed"

\* status of a path given its content before and after (0 is absent); unchanged ones are only listed on request
StatusOf(before, after, full) ==
  CASE before = 0 /\ after # 0             -> "new"
    [] before # 0 /\ after = 0             -> "deleted"
    [] before # 0 /\ after # 0 /\ before # after -> "changed"
    [] before = after /\ before # 0 /\ full -> "unchanged"
    [] OTHER                               -> "none"

\* what becomes of (local copy, next version on the server) after an update and a commit, without a conflict
Outcome(cat, local, server) ==
  CASE cat = "client_push_files"   -> <<local, local>>
    [] cat = "client_pull_files"   -> <<server, server>>
    [] cat = "to_delete_on_client" -> <<0, server>>
    [] cat = "to_delete_on_server" -> <<local, 0>>
    [] OTHER                       -> <<local, server>>

ThreeWay(base, local, server, full) ==
  LET s == StatusOf(base, server, full) c == StatusOf(base, local, full) cat == Cat(s, c) o == Outcome(cat, local, server) IN
  /\ cat = "conflict_files" <=> (local # base /\ server # base /\ ~(local = 0 /\ server = 0))
  /\ cat # "conflict_files" =>
       /\ o[1] = o[2]                                            \* both sides agree afterwards
       /\ local # base /\ server = base => o[1] = local         \* nobody's change is lost
       /\ server # base /\ local = base => o[1] = server
       /\ local = base /\ server = base => o[1] = base
=============================================================================
