--------------------------- MODULE RangeMapJudge ----------------------------
EXTENDS RangeMap, Judging
VARIABLE done
SetOps == ValueQueries \cup RangeQueries \cup WholeQueries \cup {"encloses_all", "encloses_all_set"}
\* a value of None (index nul) cannot be told from none at all where one value is looked up
Shown(c, e) == IF "nul" \in DOMAIN c /\ c.op \in {"map_get", "map_rightmost", "map_leftmost"} /\ e = <<c.nul>> THEN <<>> ELSE e
Expected(c) == CASE c.op \in {"set_eq", "map_eq", "range_eq", "cross_eq"} -> EqEval(c)
                 [] c.op \in Unary /\ "a" \in DOMAIN c -> EvalUnary(c.op, c.a)
                 [] c.op \in Binary /\ "b" \in DOMAIN c -> EvalBinary(c.op, c.a, c.b)
                 [] c.op = "rcontains" -> B(Has(c.a, c.v))
                 [] c.op \in SetOps /\ "adds" \in DOMAIN c -> Query(c, Union(c.adds))
                 [] OTHER -> Shown(c, MapEval(c))
\* hash: 1 if the hashes agree or the objects differ
Judge(i) == LET c == Recs[i] e == Expected(c) IN
  /\ (Accepts(e, c.res) \/ Reject(i, c.op, e))
  /\ (c.hash # 0 \/ Reject(i, "hash", <<1>>))
JInit == done = FALSE /\ Init
JNext == /\ ~done /\ JudgeAll(Judge) /\ done' = TRUE /\ UNCHANGED vars
=============================================================================
