--------------------------- MODULE RangeSetJudge ----------------------------
(* Judges recorded queries: [adds, op, v|q|rs, res]. *)
EXTENDS RangeSet, Judging
VARIABLE done
Judge(i) == LET c == Recs[i] e == Query(c, Union(c.adds)) IN
  Accepts(e, c.res) \/ Reject(i, c.op, e)
JInit == done = FALSE /\ Init
JNext == /\ ~done /\ JudgeAll(Judge) /\ done' = TRUE /\ UNCHANGED vars
=============================================================================
