----------------------------- MODULE RangesJudge ----------------------------
(* Judges recorded calls of the real code: [op, args..., res]. *)
EXTENDS Ranges, Judging
VARIABLE done
Judge(i) == LET c == Recs[i] e == Eval(c) IN
  Accepts(e, c.res) \/ Reject(i, c.op, e)
Init == done = FALSE
Next == /\ ~done /\ JudgeAll(Judge) /\ done' = TRUE
=============================================================================
