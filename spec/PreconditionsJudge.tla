------------------------- MODULE PreconditionsJudge -------------------------
EXTENDS Preconditions, Judging
VARIABLE x
\* anc: per class (from 0) the list of its ancestors; msg: pieces of the message given, <<>> for none
J(i) == LET r == Recs[i]
            anc == [c \in 0..(Len(r.anc) - 1) |-> {r.anc[c + 1][k] : k \in DOMAIN r.anc[c + 1]}]
            pass == IF r.op = "in" THEN In(r.item, r.legal) ELSE Passes(anc, r.op, r.xs, r.info) IN
  /\ (r.res = (IF pass THEN "ok" ELSE Error(r.op))) \/ Reject(i, "verdict", IF pass THEN "ok" ELSE Error(r.op))
  /\ ((r.res = "ok" /\ r.op \in Returns) => r.same) \/ Reject(i, "what was checked is not given back", "")
  /\ ((r.res # "ok" /\ r.op \in Speaks /\ r.msg # <<>>) => r.text = Fill(r.msg, r.args)) \/ Reject(i, "message", Fill(r.msg, r.args))
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
