-------------------------- MODULE AnnotatedTextJudge ------------------------
EXTENDS AnnotatedText, Judging
VARIABLE x
J(i) == LET r == Recs[i]  c == Clipped(r.anns, r.ws, Len(r.text)) IN
  /\ r.res = "ok" \/ Reject(i, "formatting failed", "")
  /\ r.res = "ok" =>
     /\ Chars(r.out) = r.text \/ Reject(i, "text", "")
     /\ TagsRight(r.out, c) \/ Reject(i, "tags and their places", c)
     /\ NestedRight(r.out, c) \/ Reject(i, "nesting", c)
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
