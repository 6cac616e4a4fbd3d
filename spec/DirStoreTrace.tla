--------------------------- MODULE DirStoreTrace ----------------------------
EXTENDS DirStore, Json, IOUtils
VARIABLES l, dead
Recs == ndJsonDeserialize(IOEnv.RECORDS)
Act(e) ==
  CASE e.op = "new" -> files' = Empty /\ index' = NoIndex /\ sess' = "closed" /\ known' = {} /\ res' = "ok"
    [] e.op = "open" -> Open
    [] e.op = "put" -> Put(e.a, e.v)
    [] e.op = "fail" -> PutFail(e.a)
    [] e.op \in {"close", "abort"} -> Close
    [] e.op = "edit" -> Edit(e.a, e.v)
    [] e.op = "remove" -> Remove(e.a)
    [] e.op = "wipe" -> Wipe
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSet(S \ {m})
Sound(k, got) == LET s == Seen(k)' IN IF s = -1 THEN got # 0 ELSE got = s
RECURSIVE Items(_)
Items(ks) == IF ks = <<>> THEN <<>> ELSE <<Head(ks), files'[Head(ks)]>> \o Items(Tail(ks))
Settled == \A k \in index'.keys : k \in DOMAIN files' /\ files'[k] # 0
Wrong(e) ==
  IF (res' = "ok") # (e.res = "ok") THEN "outcome"
  ELSE IF e.seen = 0 THEN ""
  ELSE IF e.has # index'.has THEN "index exists"
  \* a file left by a failed put may or may not be there
  ELSE IF LET D == {e.disk[i] : i \in DOMAIN e.disk} IN
            ~(D \subseteq DOMAIN files' /\ {k \in DOMAIN files' : files'[k] # 0} \subseteq D) THEN "files in the directory"
  ELSE IF ~index'.has THEN ""
  ELSE IF e.keys # SortSet(index'.keys) THEN "keys"
  ELSE IF \E k \in Keys : ~Sound(k, e.get[k]) THEN "values"
  ELSE IF Settled /\ e.items # Items(SortSet(index'.keys)) THEN "items"
  ELSE ""
TInit == Init /\ l = 1 /\ dead = FALSE
Step == /\ l <= Len(Recs)
        /\ l' = l + 1
        /\ LET e == Recs[l] IN
             IF e.op = "new" THEN Act(e) /\ dead' = FALSE
             ELSE IF dead THEN UNCHANGED <<vars, dead>>
             ELSE /\ Act(e)
                  /\ LET w == Wrong(e) IN
                       /\ dead' = (w # "")
                       /\ w = "" \/ PrintT(ToJson([bad |-> l, clause |-> w,
                                                   expected |-> [index |-> index', files |-> files', res |-> res']]))
Fin == /\ l = Len(Recs) + 1
       /\ PrintT(ToJson([judged |-> Len(Recs)]))
       /\ l' = l + 1 /\ UNCHANGED <<vars, dead>>
TNext == Step \/ Fin
=============================================================================
