--------------------------- MODULE AttrHelpersTrace -------------------------
EXTENDS AttrHelpers, Json, IOUtils
VARIABLES l, dead
Recs == ndJsonDeserialize(IOEnv.RECORDS)
S(q) == {q[i] : i \in DOMAIN q}
Act(e) == CASE e.op = "make" -> Make(e.k, e.a) [] e.op = "feed" -> Feed(e.e) [] e.op = "add" -> Add(e.i, e.e)
            [] e.op = "declare" -> UNCHANGED vars
Wrong(e) == IF e.op = "make" /\ (e.res = "ok") # (Value(e.k, e.a) # "err") THEN "an object was made or refused wrongly"
            ELSE IF e.op = "make" /\ e.res = "ok" /\ e.v # Value(e.k, e.a) THEN "value of the attribute"
            ELSE IF e.op = "declare" /\ (e.res = "ok") # Declarable(e.k, e.a = "collection") THEN "an attribute was declared or refused wrongly"
            ELSE IF e.op \in {"feed", "add"} /\ e.res # "ok" THEN e.op \o " failed"
            ELSE IF [i \in DOMAIN e.has |-> S(e.has[i])] # [i \in DOMAIN objs' |-> objs'[i].has] THEN "contents of the objects"
            ELSE ""
TInit == Init /\ l = 1 /\ dead = FALSE
Step == /\ l <= Len(Recs)
        /\ l' = l + 1
        /\ LET e == Recs[l] IN
             IF e.op = "new" THEN objs' = <<>> /\ src' = {} /\ dead' = FALSE
             ELSE IF dead THEN UNCHANGED <<vars, dead>>
             ELSE /\ Act(e)
                  /\ LET w == Wrong(e) IN
                       /\ dead' = (w # "")
                       /\ w = "" \/ PrintT(ToJson([bad |-> l, clause |-> w, expected |-> IF objs' = <<>> THEN <<>> ELSE <<objs'[Len(objs')]>>]))
Fin == /\ l = Len(Recs) + 1
       /\ PrintT(ToJson([judged |-> Len(Recs)]))
       /\ l' = l + 1 /\ UNCHANGED <<vars, dead>>
TNext == Step \/ Fin
=============================================================================
