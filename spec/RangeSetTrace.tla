--------------------------- MODULE RangeSetTrace ---------------------------
(* Validates recorded histories of real range sets / builders against
   RangeSet's actions, giving a verdict for every history.                  *)
EXTENDS RangeSet, Json, IOUtils, TLC
VARIABLES l, dead
Recs == ndJsonDeserialize(IOEnv.RECORDS)
tvars == <<live, snaps, others, l, dead>>

\* observations after the step, against the specification's next state
Wrong(e) ==
  IF e.failed # "" THEN "raised"
  ELSE IF e.seen = 1 /\ e.obs # FlatSeq(Members(live')) THEN "members"
  ELSE IF e.seen = 1 /\ e.len # Len(Members(live')) THEN "len"
  ELSE IF e.seen = 1 /\ e.empty # B(live' = {})[1] THEN "is_empty"
  ELSE IF Len(e.snaps) # Len(snaps') THEN "snapshot count"
  ELSE IF \E i \in DOMAIN snaps' : e.snaps[i] # FlatSeq(Members(snaps'[i])) THEN "snapshots"
  ELSE IF Len(e.others) # Len(others') THEN "others count"
  ELSE IF \E i \in DOMAIN others' : e.others[i] # FlatSeq(Members(others'[i])) THEN "other sets"
  ELSE IF e.self = 0 THEN "return value"
  ELSE ""

Act(e) == CASE e.op = "new" -> live' = {} /\ snaps' = <<>> /\ others' = <<>>
            [] e.op = "add" -> Add(e.r)
            [] e.op = "add_all" -> AddAll(e.rs)
            [] e.op = "clear" -> Clear
            [] e.op = "snap" -> Snapshot
            [] e.op = "add_other" -> AddOther(e.i)
            [] e.op = "add_snap" -> AddSnap(e.i)
            [] e.op = "other_new" -> OtherNew(e.rs)
            [] e.op = "other_add" -> OtherAdd(e.i, e.r)
            [] e.op = "other_clear" -> OtherClear(e.i)
            [] e.op = "other_take" -> OtherTake(e.i)
TInit == Init /\ l = 1 /\ dead = FALSE
Step == /\ l <= Len(Recs)
        /\ l' = l + 1
        /\ LET e == Recs[l] IN
             /\ Act(e)
             /\ IF e.op = "new" THEN dead' = FALSE
                ELSE IF dead THEN dead' = TRUE
                ELSE LET w == Wrong(e) IN
                       /\ dead' = (w # "")
                       /\ w = "" \/ PrintT(ToJson([bad |-> l, clause |-> w,
                                                   expected |-> Members(live')]))
Fin == /\ l = Len(Recs) + 1
       /\ PrintT(ToJson([judged |-> Len(Recs)]))
       /\ l' = l + 1 /\ UNCHANGED <<live, snaps, others, dead>>
TNext == Step \/ Fin
=============================================================================
