---------------------------- MODULE LinearSource ----------------------------
(* What iterating a tar-backed linear source yields.
   An archive is a sequence of members  <<kind, name, content>>  with kind 1 for
   a regular file and anything else for directories, links, ...  A name filter is
   the set of names accepted, a key function maps names to keys, 0 for None, a key
   filter is the set of keys accepted.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Items(_, _, _, _)
Items(ms, names, keyOf, keys) ==
  IF ms = <<>> THEN <<>>
  ELSE LET m == Head(ms)
           rest == Items(Tail(ms), names, keyOf, keys)
       IN IF m[1] = 1 /\ m[2] \in names /\ keyOf[m[2]] # 0 /\ keyOf[m[2]] \in keys
          THEN <<<<keyOf[m[2]], m[3]>>>> \o rest ELSE rest
\* <<who, id>>: the name filter (1) or the key function (2) fails on name id, the key filter (3) or an interpretation
\* function (4) on key id.  Members before the first one it fails on are all that can have been given.
Asks(m, names, keyOf, keys, fail) ==
  /\ m[1] = 1
  /\ CASE fail[1] = 1 -> m[2] = fail[2]
       [] fail[1] = 2 -> m[2] \in names /\ m[2] = fail[2]
       [] fail[1] = 3 -> m[2] \in names /\ keyOf[m[2]] # 0 /\ keyOf[m[2]] = fail[2]
       [] fail[1] = 4 -> m[2] \in names /\ keyOf[m[2]] # 0 /\ keyOf[m[2]] \in keys /\ keyOf[m[2]] = fail[2]
       [] OTHER -> FALSE
FailingMembers(ms, names, keyOf, keys, fail) == {i \in DOMAIN ms : Asks(ms[i], names, keyOf, keys, fail)}
Before(ms, names, keyOf, keys, fail) ==
  LET F == FailingMembers(ms, names, keyOf, keys, fail) IN
    IF F = {} THEN ms ELSE SubSeq(ms, 1, (CHOOSE i \in F : \A j \in F : i <= j) - 1)
\* items of an interpreted view: content c under key k becomes f(k, c)
RECURSIVE Mapped(_, _)
Mapped(its, lvl) == IF its = <<>> THEN <<>>
                    ELSE <<<<Head(its)[1], Head(its)[2] + lvl * (1000 + 100 * Head(its)[1])>>>> \o Mapped(Tail(its), lvl)
=============================================================================
