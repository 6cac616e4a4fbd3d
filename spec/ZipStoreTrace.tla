--------------------------- MODULE ZipStoreTrace ----------------------------
(* Verdicts on recorded histories of real zip sinks and sources. *)
EXTENDS ZipStore, Json, IOUtils
VARIABLES l, dead
Recs == ndJsonDeserialize(IOEnv.RECORDS)
tvars == <<vars, l, dead>>

Act(e) ==
  CASE e.op = "new" -> file' = NoFile /\ sess' = Closed /\ res' = "ok"
    [] e.op = "open_ow" -> Open(TRUE)
    [] e.op = "open_app" -> Open(FALSE)
    [] e.op = "put" -> IF sess.st = "open" THEN Put(e.a, e.v) ELSE PutClosed(e.a, e.v)
    [] e.op = "fail" -> IF sess.st = "open" THEN PutFail(e.a) ELSE PutClosed(e.a, e.v)
    [] e.op \in {"close", "abort"} -> Close
    [] e.op = "foreign" -> Foreign([k \in {e.ks[i] : i \in DOMAIN e.ks} |->
                                      e.vs[CHOOSE i \in DOMAIN e.ks : e.ks[i] = k]])
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSet(S \ {m})
RECURSIVE Items(_)
Items(ks) == IF ks = <<>> THEN <<>> ELSE <<Head(ks), file'.ent[Head(ks)]>> \o Items(Tail(ks))

Wrong(e) ==
  IF (res' = "ok") # (e.res = "ok") THEN "outcome"
  ELSE IF e.seen = 0 THEN ""
  ELSE IF e.exists # (file'.st = "zip") THEN "archive exists"
  ELSE IF file'.st # "zip" THEN ""
  ELSE IF e.haslist # file'.haslist THEN "key list"
  ELSE IF e.keys # SortSet(file'.listed) THEN "keys"
  ELSE IF e.get # [k \in Keys |-> IF k \in DOMAIN file'.ent THEN file'.ent[k] ELSE 0] THEN "values"
  ELSE IF file'.haslist /\ e.items # Items(SortSet(file'.listed)) THEN "items"
  ELSE IF file'.haslist /\ e.odd # Items(SortSet({k \in file'.listed : k % 2 = 1})) THEN "filtered items"
  ELSE ""

TInit == Init /\ l = 1 /\ dead = FALSE
Step == /\ l <= Len(Recs)
        /\ l' = l + 1
        /\ LET e == Recs[l] IN
             /\ Act(e)
             /\ IF e.op = "new" THEN dead' = FALSE
                ELSE IF dead THEN dead' = TRUE
                ELSE LET w == Wrong(e) IN
                       /\ dead' = (w # "")
                       /\ w = "" \/ PrintT(ToJson([bad |-> l, clause |-> w, expected |-> file']))
Fin == /\ l = Len(Recs) + 1
       /\ PrintT(ToJson([judged |-> Len(Recs)]))
       /\ l' = l + 1 /\ UNCHANGED <<vars, dead>>
TNext == Step \/ Fin
=============================================================================
