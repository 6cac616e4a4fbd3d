------------------------------ MODULE ZipStore ------------------------------
(* A zip-backed key-value store: the archive on disk and at most one open
   write session.  Keys and values are small integers.
     file.st     "none" (no archive yet) or "zip"
     file.ent    entries that can be looked up: key -> value
     file.listed "unknown" when the archive has no key list, else the listed keys
     sess.st     "closed" or "open"; sess.ent/known: what the archive will hold,
                 and the keys the session refuses to put again               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Vals
VARIABLES file, sess, res
vars == <<file, sess, res>>

Empty == [k \in {} |-> 0]
Put1(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Closed == [st |-> "closed", ent |-> Empty, known |-> {}]
NoFile == [st |-> "none", ent |-> Empty, haslist |-> FALSE, listed |-> {}]

Init == file = NoFile /\ sess = Closed /\ res = "ok"

\* an archive written by other means, without a key list
Foreign(f) == /\ sess.st = "closed"
              /\ file' = [st |-> "zip", ent |-> f, haslist |-> FALSE, listed |-> {}]
              /\ UNCHANGED sess /\ res' = "ok"

\* overwrite: whatever was there is gone; append: start from what is there
Open(overwrite) ==
  /\ sess.st = "closed"
  /\ sess' = IF overwrite \/ file.st = "none"
             THEN [st |-> "open", ent |-> Empty, known |-> {}]
             ELSE [st |-> "open", ent |-> file.ent, known |-> file.listed]
  /\ UNCHANGED file /\ res' = "ok"

\* a new key
PutNew(k, v) == /\ sess.st = "open" /\ k \notin sess.known
                /\ sess' = [sess EXCEPT !.ent = Put1(@, k, v), !.known = @ \cup {k}]
                /\ UNCHANGED file /\ res' = "ok"
\* a key already there: refused, nothing changes
PutDup(k, v) == /\ sess.st = "open" /\ k \in sess.known
                /\ UNCHANGED <<file, sess>> /\ res' = "dup"
Put(k, v) == PutNew(k, v) \/ PutDup(k, v)
\* a put that cannot be carried out (bad value, failing filename function, ...): as if not attempted
PutFail(k) == /\ sess.st = "open"
              /\ UNCHANGED <<file, sess>> /\ res' = "fail"
\* any put without an open session
PutClosed(k, v) == /\ sess.st = "closed"
                   /\ UNCHANGED <<file, sess>> /\ res' = "fail"
\* leaving the session, normally or by an exception: what was put is kept
Close == /\ sess.st = "open"
         /\ file' = [st |-> "zip", ent |-> sess.ent, haslist |-> TRUE, listed |-> sess.known]
         /\ sess' = Closed /\ res' = "ok"

Next == \/ \E o \in BOOLEAN : Open(o)
        \/ \E k \in Keys, v \in Vals : Put(k, v) \/ PutClosed(k, v)
        \/ \E k \in Keys : PutFail(k)
        \/ Close
        \/ \E k \in Keys, v \in Vals : Foreign([x \in {k} |-> v])
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what a reader sees
SeenVals == [k \in Keys |-> IF file.st = "zip" /\ k \in DOMAIN file.ent THEN file.ent[k] ELSE 0]
SeenKeys == file.listed

TypeOK == /\ DOMAIN file.ent \subseteq Keys /\ \A k \in DOMAIN file.ent : file.ent[k] \in Vals
          /\ sess.known \subseteq DOMAIN sess.ent
\* every listed key can be looked up; an archive with a key list that never was foreign lists everything
ListedPresent == file.listed \subseteq DOMAIN file.ent
\* a refused or failed put changes nothing
RefusedIsNoop == [][res' \in {"dup", "fail"} => UNCHANGED <<file, sess>>]_vars
\* only closing a session or an outside writer changes the archive
FileStable == [][file' # file => ((sess.st = "open" /\ sess'.st = "closed") \/ (sess.st = "closed" /\ ~file'.haslist))]_vars
\* within a session nothing once put is lost or altered (entries of foreign archives may be replaced)
SessionMonotone == [][(sess.st = "open" /\ sess'.st = "open") =>
                        \A k \in sess.known : k \in sess'.known /\ sess'.ent[k] = sess.ent[k]]_vars
=============================================================================
