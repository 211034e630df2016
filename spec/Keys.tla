-------------------------------- MODULE Keys --------------------------------
(* Private keys and their passwords.  A stored key is [pw: <<>> or <<password>>, key]; what an unlock gives. *)
EXTENDS Naturals, Sequences, FiniteSets

(* the first valid answer decides, letter case does not matter (the answers are given as "y", "n" or "other") *)
RECURSIVE Protected(_)
Protected(answers) == IF answers = <<>> THEN FALSE ELSE IF Head(answers) = "other" THEN Protected(Tail(answers)) ELSE Head(answers) = "y"
(* passwords are asked for in pairs until both are the same *)
RECURSIVE Chosen(_)
Chosen(given) == IF Len(given) < 2 THEN <<>> ELSE IF given[1] = given[2] THEN <<given[1]>> ELSE Chosen(SubSeq(given, 3, Len(given)))

Stored(answers, given) == IF Protected(answers) THEN Chosen(given) ELSE <<>>
Unlock(pw, given) == IF pw = <<>> THEN "key" ELSE IF given = pw[1] THEN "key" ELSE "refused"
Asked(pw) == IF pw = <<>> THEN 0 ELSE 1
=============================================================================
