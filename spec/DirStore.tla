------------------------------ MODULE DirStore ------------------------------
(* A directory-backed key-value store: one file per key, and a doc-id-to-file
   map "_index" written when a session ends.  A reader is a source made from
   the index.  Keys and values are small integers; value 0 stands for content
   nobody promised anything about (a put that failed half way).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Vals
VARIABLES files,    \* key -> content, the files now in the directory
          index,    \* the keys listed by the index; [has |-> FALSE] when there is none
          sess,     \* "closed" or "open"
          known,    \* keys put in the open session
          res
vars == <<files, index, sess, known, res>>

Empty == [k \in {} |-> 0]
Put1(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
NoIndex == [has |-> FALSE, keys |-> {}]

Init == files = Empty /\ index = NoIndex /\ sess = "closed" /\ known = {} /\ res = "ok"

\* a session only starts in an empty directory: otherwise it fails and nothing is touched
Open == /\ sess = "closed"
        /\ IF DOMAIN files = {} /\ ~index.has
           THEN sess' = "open" /\ known' = {} /\ res' = "ok" /\ UNCHANGED <<files, index>>
           ELSE res' = "fail" /\ UNCHANGED <<files, index, sess, known>>
\* a second put of a key replaces its value
Put(k, v) == /\ sess = "open"
             /\ files' = Put1(files, k, v) /\ known' = known \cup {k} /\ res' = "ok"
             /\ UNCHANGED <<index, sess>>
\* a put that cannot be carried out may spoil that key's own content, nothing else
PutFail(k) == /\ sess = "open"
              /\ files' = Put1(files, k, 0) /\ res' = "fail"
              /\ UNCHANGED <<index, sess, known>>
Close == /\ sess = "open"
         /\ index' = [has |-> TRUE, keys |-> known] /\ sess' = "closed" /\ res' = "ok"
         /\ UNCHANGED <<files, known>>
\* the world outside
Edit(k, v) == /\ sess = "closed" /\ index.has /\ k \in index.keys
              /\ files' = Put1(files, k, v) /\ res' = "ok" /\ UNCHANGED <<index, sess, known>>
Remove(k) == /\ sess = "closed" /\ k \in DOMAIN files
             /\ files' = Without(files, k) /\ res' = "ok" /\ UNCHANGED <<index, sess, known>>
Wipe == /\ sess = "closed"
        /\ files' = Empty /\ index' = NoIndex /\ res' = "ok" /\ UNCHANGED <<sess, known>>

Next == \/ Open \/ Close \/ Wipe
        \/ \E k \in Keys : PutFail(k) \/ Remove(k)
        \/ \E k \in Keys, v \in Vals : Put(k, v) \/ Edit(k, v)
Spec == Init /\ [][Next]_vars

\* what a reader made from the index gives for a key: 0 nothing known (default / KeyError),
\* -2 an error (listed, file gone), -1 anything, else the value
Seen(k) == IF k \notin index.keys THEN 0
           ELSE IF k \notin DOMAIN files THEN -2
           ELSE IF files[k] = 0 THEN -1 ELSE files[k]
-----------------------------------------------------------------------------
TypeOK == known \subseteq Keys /\ DOMAIN files \subseteq Keys /\ index.keys \subseteq Keys
SessionKeepsFiles == sess = "open" => known \subseteq DOMAIN files
\* putting one key never touches another
Isolation == [][\A k \in Keys : (sess = "open" /\ sess' = "open" /\ k \in DOMAIN files /\ files'[k] # files[k])
                  => \A j \in DOMAIN files \ {k} : files'[j] = files[j]]_vars
FailedOpenIsNoop == [][(sess = "closed" /\ res' = "fail") => UNCHANGED <<files, index, sess>>]_vars
ListedAfterClose == [][(sess = "open" /\ sess' = "closed") => index'.keys = known /\ files' = files]_vars
=============================================================================
