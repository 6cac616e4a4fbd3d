-------------------------- MODULE LinearSourceJudge -------------------------
EXTENDS LinearSource, Judging
VARIABLE x
S(q) == {q[i] : i \in DOMAIN q}
J(i) == LET r == Recs[i]
            base == Items(r.members, S(r.names), r.keyfn, S(r.keys))
            want == Mapped(base, r.level)
            \* the function is called once per item, in order, with the item of the level below
            calls == [lv \in 1..r.level |-> Mapped(base, lv - 1)]
            prefix == SubSeq(want, 1, IF r.upto < Len(want) THEN r.upto ELSE Len(want))
            some == [lv \in 1..r.level |-> SubSeq(calls[lv], 1, Len(prefix))]
            \* one of the user's own functions fails: its error ends the iteration, after some of the items before it
            broken == Mapped(Items(Before(r.members, S(r.names), r.keyfn, S(r.keys), r.fail), S(r.names), r.keyfn, S(r.keys)), r.level)
            fails == r.fail[1] # 0 /\ FailingMembers(r.members, S(r.names), r.keyfn, S(r.keys), r.fail) # {}
        IN IF fails
           THEN IF r.res # "raised" THEN Reject(i, "an error of the user's own function is lost", broken)
                ELSE IF r.out # SubSeq(broken, 1, Len(r.out)) THEN Reject(i, "items before an error", broken)
                ELSE TRUE
           ELSE IF r.res # "ok" THEN Reject(i, "failed", want)
           ELSE IF r.out # prefix THEN Reject(i, "items", prefix)
           ELSE IF r.fail[1] = 0 /\ r.calls # some THEN Reject(i, "calls of the interpretation function", some)
           ELSE TRUE
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
