-------------------------- MODULE InterpSourceTrace -------------------------
EXTENDS InterpSource, Json, IOUtils
VARIABLES l, dead
Recs == ndJsonDeserialize(IOEnv.RECORDS)
S(q) == {q[i] : i \in DOMAIN q}
Act(e) ==
  CASE e.op = "new" -> /\ src' = [k \in S(e.ks) |-> e.vs[CHOOSE i \in DOMAIN e.ks : e.ks[i] = k]]
                       /\ blank' = e.blank /\ level' = e.level /\ ans' = 0 /\ calls' = <<>>
    [] e.op = "change" -> Change([k \in S(e.ks) |-> e.vs[CHOOSE i \in DOMAIN e.ks : e.ks[i] = k]])
    [] e.op = "get" -> Get(e.a)
    [] e.op = "keys" -> Listing
    [] e.op = "items" -> Items(S(e.filt))
    [] e.op = "getfail" -> GetFailing(e.a, e.b)
    [] e.op = "itemsfail" -> ItemsFailing(S(e.filt), e.b)
Get2 == {"get", "getfail"}
Wrong(e) == IF e.op \in Get2 /\ e.how = "plain" /\ e.ans # (IF ans' \in {0, Nul} THEN -1 ELSE ans') THEN "get"
            ELSE IF e.op \in Get2 /\ e.how = "default" /\ e.ans # (IF ans' = 0 THEN -2 ELSE ans') THEN "get with a default"
            ELSE IF e.op \in Get2 /\ e.how = "index" /\ e.ans # (IF ans' = 0 THEN -3 ELSE ans') THEN "indexing"
            ELSE IF e.op \notin Get2 /\ e.ans # ans' THEN e.op
            ELSE IF e.op \notin {"getfail", "itemsfail"} /\ e.calls # calls' THEN "calls of the interpretation function"
            ELSE ""
TInit == src = <<>> /\ blank = <<>> /\ level = 0 /\ ans = 0 /\ calls = <<>> /\ l = 1 /\ dead = FALSE
Step == /\ l <= Len(Recs)
        /\ l' = l + 1
        /\ LET e == Recs[l] IN
             IF e.op = "new" THEN Act(e) /\ dead' = FALSE
             ELSE IF dead THEN UNCHANGED <<vars, dead>>
             ELSE /\ Act(e)
                  /\ LET w == Wrong(e) IN
                       /\ dead' = (w # "")
                       /\ w = "" \/ PrintT(ToJson([bad |-> l, clause |-> w, expected |-> [ans |-> ans', calls |-> calls']]))
Fin == /\ l = Len(Recs) + 1
       /\ PrintT(ToJson([judged |-> Len(Recs)]))
       /\ l' = l + 1 /\ UNCHANGED <<vars, dead>>
TNext == Step \/ Fin
=============================================================================
