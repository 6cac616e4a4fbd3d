------------------------------ MODULE Logging -------------------------------
(* Logging, configured from parameters.  root: the level of the root logger;
   consoles: the levels of what prints messages on standard output.  A request
   names a configuration file (with a level of its own) or a level, or neither. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES root, consoles, res, seen
vars == <<root, consoles, res, seen>>
LevelOf == ("CRITICAL" :> 50) @@ ("FATAL" :> 50) @@ ("ERROR" :> 40) @@ ("WARNING" :> 30) @@ ("WARN" :> 30) @@ ("INFO" :> 20) @@ ("DEBUG" :> 10)
Levels == {50, 40, 30, 20, 10}
Requests == [file : {"no", "there", "missing"}, flevel : Levels, level : DOMAIN LevelOf \cup {"", "LOUD"}, show : BOOLEAN]
Init == root = 30 /\ consoles = <<>> /\ res = "ok" /\ seen = FALSE
Fails(q) == q.file = "missing" \/ (q.file = "no" /\ q.level # "" /\ q.level \notin DOMAIN LevelOf)
Asked(q) == IF q.file = "there" THEN q.flevel ELSE IF q.level = "" THEN 20 ELSE LevelOf[q.level]
Printed(r, cs, l) == l >= r /\ \E i \in DOMAIN cs : l >= cs[i]
\* a configuration file replaces what there is, a level adds a console
Configure(q) ==
  IF Fails(q) THEN res' = "err" /\ seen' = FALSE /\ UNCHANGED <<root, consoles>>
  ELSE /\ root' = Asked(q)
       /\ consoles' = (IF q.file = "there" THEN <<q.flevel>> ELSE Append(consoles, Asked(q)))
       /\ res' = "ok"
       \* whether parameters can be shown after a configuration file was used is its business
       /\ seen' = (q.file = "no" /\ q.show /\ Printed(root', consoles', 20))
Log(l) == seen' = Printed(root, consoles, l) /\ res' = "ok" /\ UNCHANGED <<root, consoles>>
Next == (\E q \in Requests : Configure(q)) \/ (\E l \in Levels : Log(l))
Bound == Len(consoles) <= 2
Spec == Init /\ [][Next]_vars
\* once configured, what is printed is told by the root level alone
Told == consoles # <<>> => \A l \in Levels : Printed(root, consoles, l) <=> l >= root
\* and that is what was asked for last
Last == [][\A q \in Requests : Configure(q) => ((res' = "ok" => root' = Asked(q)) /\ (res' = "err" => root' = root))]_vars
=============================================================================
