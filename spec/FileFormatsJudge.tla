-------------------------- MODULE FileFormatsJudge --------------------------
EXTENDS FileFormats, Judging
VARIABLE x
S(q) == {q[i] : i \in DOMAIN q}
IsMap(r, ls) == S(r.out) = Meaning(ls) /\ Cardinality(S(r.out)) = Len(r.out)
J(i) == LET r == Recs[i] IN
  CASE r.op = "parse" -> IF ~WellFormed(r.lines) THEN (r.res # "ok" \/ Reject(i, "a malformed map was accepted", ""))
                         ELSE IF r.res # "ok" THEN Reject(i, "a well-formed map was rejected", "")
                         ELSE IF ~r.told THEN Reject(i, "nothing was logged under the name given", "")
                         ELSE (IsMap(r, ResolvedLines(r.lines, r.which)) \/ Reject(i, "map", Meaning(ResolvedLines(r.lines, r.which))))
    [] r.op = "roundtrip" -> (r.res = "ok" /\ IsMap(r, r.lines)) \/ Reject(i, "written map", Meaning(r.lines))
    [] r.op = "lineset" -> (r.res = "ok" /\ r.out = Distinct(r.lines, {})) \/ Reject(i, "line set", Distinct(r.lines, {}))
    [] r.op = "pathlist" -> IF r.res = "ok" /\ ~r.told THEN Reject(i, "nothing was logged under the name given", "") ELSE (r.res = "ok" /\ r.out = Paths(r.lines)) \/ Reject(i, "path list", Paths(r.lines))
    [] r.op = "pathitems" -> IF r.res = "ok" /\ ~r.told THEN Reject(i, "nothing was logged under the name given", "") ELSE (r.res = "ok" /\ r.out = Items(r.lines)) \/ Reject(i, "listed paths", Items(r.lines))
    [] r.op = "pickled" -> (r.res = "ok" /\ r.out = <<r.n>>) \/ Reject(i, "pickled object", r.n)
    [] r.op = "emptydir" -> (r.res = "ok" /\ r.out = <<IF r.kind = "empty" THEN 1 ELSE 0>>) \/ Reject(i, "empty directory", r.kind)
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
