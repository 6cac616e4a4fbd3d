-------------------------- MODULE CheckpointsTrace --------------------------
(* Recorded histories: handles of several directories, in several processes. *)
EXTENDS Checkpoints, Json, IOUtils
VARIABLES l, dead
Recs == ndJsonDeserialize(IOEnv.RECORDS)
S(q) == {q[i] : i \in DOMAIN q}
Act(e) ==
  CASE e.op = "handle" -> Handle(e.d)
    [] e.op = "set" -> Set(e.d, e.n)
    [] e.op = "ask" -> Ask(e.d, e.n)
    [] e.op = "reset" -> Reset(e.d)
    [] e.op = "bad" -> Bad(e.d)
Wrong(e) == IF e.op = "bad" /\ e.res = "ok" THEN "a name which is no string was taken"
            ELSE IF e.op # "bad" /\ e.res # "ok" THEN e.op \o " failed"
            ELSE IF e.op = "ask" /\ e.ans # ans' THEN "answer"
            ELSE IF \E d \in made' : S(e.all[d]) # saved'[d] THEN "answers to all questions"
            ELSE ""
TInit == Init /\ l = 1 /\ dead = FALSE
Step == /\ l <= Len(Recs)
        /\ l' = l + 1
        /\ LET e == Recs[l] IN
             IF e.op = "new" THEN saved' = [d \in Dirs |-> {}] /\ made' = {} /\ ans' = 0 /\ dead' = FALSE
             ELSE IF dead THEN UNCHANGED <<vars, dead>>
             ELSE /\ Act(e)
                  /\ LET w == Wrong(e) IN
                       /\ dead' = (w # "")
                       /\ w = "" \/ PrintT(ToJson([bad |-> l, clause |-> w, expected |-> saved']))
Fin == /\ l = Len(Recs) + 1
       /\ PrintT(ToJson([judged |-> Len(Recs)]))
       /\ l' = l + 1 /\ UNCHANGED <<vars, dead>>
TNext == Step \/ Fin
=============================================================================
