----------------------------- MODULE LoggingTrace ---------------------------
EXTENDS Logging, Json, IOUtils
VARIABLES l, dead
Recs == ndJsonDeserialize(IOEnv.RECORDS)
Act(e) == IF e.op = "configure" THEN Configure(e.q) ELSE Log(e.l)
Wrong(e) == IF e.res # res' THEN (IF e.op = "configure" /\ res' = "err" THEN "a wrong configuration was accepted" ELSE e.op \o " failed")
            ELSE IF e.root # root' THEN "root level"
            ELSE IF e.op = "configure" /\ res' = "err" /\ e.after # e.before THEN "a refused configuration changed what is printed"
            \* (before any configuration messages are not ours)
            ELSE IF e.op = "log" /\ consoles # <<>> /\ e.seen # seen' THEN "what is printed"
            ELSE IF e.op = "configure" /\ e.q.file = "no" /\ e.seen # seen' THEN "parameters shown"
            ELSE ""
TInit == Init /\ l = 1 /\ dead = FALSE
Step == /\ l <= Len(Recs)
        /\ l' = l + 1
        /\ LET e == Recs[l] IN
             IF e.op = "new" THEN root' = 30 /\ consoles' = <<>> /\ res' = "ok" /\ seen' = FALSE /\ dead' = FALSE
             ELSE IF dead THEN UNCHANGED <<vars, dead>>
             ELSE /\ Act(e)
                  /\ LET w == Wrong(e) IN
                       /\ dead' = (w # "")
                       /\ w = "" \/ PrintT(ToJson([bad |-> l, clause |-> w, expected |-> [root |-> root', seen |-> seen', res |-> res']]))
Fin == /\ l = Len(Recs) + 1
       /\ PrintT(ToJson([judged |-> Len(Recs)]))
       /\ l' = l + 1 /\ UNCHANGED <<vars, dead>>
TNext == Step \/ Fin
=============================================================================
