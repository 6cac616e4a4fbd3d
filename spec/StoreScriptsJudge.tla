-------------------------- MODULE StoreScriptsJudge -------------------------
EXTENDS StoreScripts, Judging
VARIABLE x
St(q) == {q[i] : i \in DOMAIN q}
Sts(q) == [i \in DOMAIN q |-> St(q[i])]
\* nothing twice in any output
Once(q) == \A i \in DOMAIN q : Cardinality(St(q[i])) = Len(q[i])
J(i) ==
  LET r == Recs[i]
      in == St(r.input)
      outs == Sts(r.outs)
      want == CASE r.op = "even" -> "ok"
                [] r.op = "explicit" -> IF ExplicitOK(in, Sts(r.lists), r.exh) THEN "ok" ELSE "err"
                [] r.op = "join" -> IF JoinOK(Sts(r.ins)) THEN "ok" ELSE "err"
                [] r.op = "sample" -> "ok"
                [] r.op \in {"copy", "tar", "chances"} -> "ok"
                [] r.op = "refused" -> "err"
  IN IF r.res # want THEN Reject(i, "outcome", want)
     ELSE IF want = "err" THEN (r.op # "refused" \/ r.inputKept \/ Reject(i, "a refused request changed the input", ""))
     ELSE IF ~Once(r.outs) THEN Reject(i, "an item appears twice in an output", r.outs)
     ELSE IF r.op = "even" /\ ~EvenSplit(in, r.n, outs) THEN Reject(i, "even split", in)
     ELSE IF r.op = "explicit" /\ outs # ExplicitOuts(in, Sts(r.lists)) THEN Reject(i, "explicit split", ExplicitOuts(in, Sts(r.lists)))
     ELSE IF r.op = "join" /\ (Len(outs) # 1 \/ outs[1] # JoinOut(Sts(r.ins))) THEN Reject(i, "join", JoinOut(Sts(r.ins)))
     ELSE IF r.op = "sample" /\ (Len(outs) # 1 \/ ~Sampled(in, r.n, outs[1])) THEN Reject(i, "sample", in)
     ELSE IF r.op = "copy" /\ (Len(outs) # 1 \/ outs[1] # in) THEN Reject(i, "conversion", in)
     ELSE IF r.op = "tar" /\ (Len(outs) # 1 \/ outs[1] # Kept(in, r.sizes, r.cut)) THEN Reject(i, "conversion of an archive", Kept(in, r.sizes, r.cut))
     ELSE IF r.op = "chances" /\ ~Chances(in, outs) THEN Reject(i, "whatever the seed, some items are never chosen", in \ UNION {outs[k] : k \in DOMAIN outs})
     ELSE IF ~r.inputKept THEN Reject(i, "the input was changed", "")
     ELSE IF ~r.repeatable THEN Reject(i, "a second run gave something else", "")
     ELSE TRUE
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
