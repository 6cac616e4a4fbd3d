-------------------------- MODULE TextAtOffsetsJudge ------------------------
\* out: the characters printed, without the final line end; said: whether offsets were called out of bounds;
\* utf8: whether the file was a text at all (t has its characters where it was)
EXTENDS TextAtOffsets, Judging
VARIABLE x
J(i) == LET r == Recs[i] IN
  IF ~r.utf8 THEN (r.res # "ok" /\ ~r.printed) \/ Reject(i, "what is not a text was taken for one", "")
  ELSE IF InBounds(r.t, r.s, r.e)
  THEN (r.res = "ok" /\ r.out = Cut(r.t, r.s, r.e)) \/ Reject(i, "text", Cut(r.t, r.s, r.e))
  ELSE (r.res # "ok" \/ r.said) \/ Reject(i, "offsets out of bounds were not complained about", "")
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
