------------------------------ MODULE RangeMap ------------------------------
(* Maps from disconnected non-empty ranges to values, built from a sequence of
   pairs [k |-> range, x |-> value].                                        *)
EXTENDS RangeSet
Keys(ps) == {ps[i].k : i \in DOMAIN ps}
\* a later pair for the same key replaces the earlier one
ValueAt(ps, k) == LET I == {i \in DOMAIN ps : ps[i].k = k} IN ps[MaxOf(I)].x
Buildable(ps) == /\ \A k \in Keys(ps) : ~IsEmpty(k)
                 /\ \A j, k \in Keys(ps) : j # k => ~Connected(j, k)
Assoc(ps) == {<<k, ValueAt(ps, k)>> : k \in Keys(ps)}

Lookup(ps, r) == IF r = None THEN <<>> ELSE <<ValueAt(ps, r)>>
RECURSIVE SortInts(_)
SortInts(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o SortInts(S \ {m})
RECURSIVE FlatAssoc(_, _)
FlatAssoc(ps, K) == IF K = {} THEN <<>>
                    ELSE LET r == CHOOSE r \in K : \A s \in K : r[1] <= s[1]
                         IN r \o <<ValueAt(ps, r)>> \o FlatAssoc(ps, K \ {r})

MapValueQueries == {"map_get", "map_contains", "map_rightmost", "map_leftmost"}
MapQuery(c, ps) ==
  LET K == Keys(ps) IN
  CASE c.op = "map_get" -> Lookup(ps, TheRange(QContaining(K, c.v)))
    [] c.op = "map_contains" -> B(QContaining(K, c.v) # {})
    [] c.op = "map_rightmost" -> Lookup(ps, QRightmost(K, c.v))
    [] c.op = "map_leftmost" -> Lookup(ps, QLeftmost(K, c.v))
    [] c.op = "map_enclosed" -> SortInts({ValueAt(ps, k) : k \in QEnclosedBy(K, c.q)})
    [] c.op = "map_dict" -> FlatAssoc(ps, K)
    [] c.op = "map_empty" -> B(K = {})
    [] c.op = "build" -> <<1>>
MapEval(c) == IF Buildable(c.ps) THEN MapQuery(c, c.ps) ELSE ERR

\* equality of two constructed objects, and agreement of their hashes when equal
EqEval(c) ==
  CASE c.op = "set_eq" -> B(Union(c.adds) = Union(c.adds2))
    [] c.op = "map_eq" -> B(Assoc(c.ps) = Assoc(c.ps2))
    [] c.op = "range_eq" -> B(c.a = c.b)
    [] c.op = "cross_eq" -> B(FALSE)
=============================================================================
