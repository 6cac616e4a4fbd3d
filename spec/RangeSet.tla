------------------------------ MODULE RangeSet ------------------------------
(* A range set is determined by the point set it covers: the state is the set
   of atoms added since the last clear; what the API shows are its maximal
   runs.  snaps are the immutable copies taken along the way, others further
   mutable sets which have been added to it.                                *)
EXTENDS Ranges
VARIABLES live, snaps, others
vars == <<live, snaps, others>>

AllAtoms == 0 .. (TOP - 1)

\* the maximal runs of S, ascending, as ranges
Members(S) ==
  LET starts == {k \in S : (k - 1) \notin S}
      ends == {k \in S : (k + 1) \notin S}
      RECURSIVE Runs(_)
      Runs(T) == IF T = {} THEN <<>>
                 ELSE LET s == MinOf(T)
                          e == MinOf({k \in ends : k >= s})
                      IN <<<<s, e + 1>>>> \o Runs(T \ {s})
  IN Runs(starts)

Union(rs) == UNION {Atoms(rs[i]) : i \in DOMAIN rs}

Init == live = {} /\ snaps = <<>> /\ others = <<>>
Add(r) == live' = live \cup Atoms(r) /\ UNCHANGED <<snaps, others>>
AddAll(rs) == live' = live \cup Union(rs) /\ UNCHANGED <<snaps, others>>
Clear == live' = {} /\ UNCHANGED <<snaps, others>>
Snapshot == snaps' = Append(snaps, live) /\ UNCHANGED <<live, others>>
\* another set, mutable or not, is added: only its ranges are taken over, not the set
AddOther(i) == live' = live \cup others[i] /\ UNCHANGED <<snaps, others>>
AddSnap(i) == live' = live \cup snaps[i] /\ UNCHANGED <<snaps, others>>
OtherNew(rs) == others' = Append(others, Union(rs)) /\ UNCHANGED <<live, snaps>>
OtherAdd(i, r) == others' = [others EXCEPT ![i] = @ \cup Atoms(r)] /\ UNCHANGED <<live, snaps>>
OtherClear(i) == others' = [others EXCEPT ![i] = {}] /\ UNCHANGED <<live, snaps>>
OtherTake(i) == others' = [others EXCEPT ![i] = @ \cup live] /\ UNCHANGED <<live, snaps>>
Next == \/ \E r \in RangeUniverse : Add(r)
        \/ Clear
        \/ Snapshot
Spec == Init /\ [][Next]_vars
Next2 == \/ Next
         \/ \E i \in DOMAIN others : AddOther(i) \/ OtherClear(i) \/ OtherTake(i)
                                     \/ \E r \in RangeUniverse : OtherAdd(i, r)
         \/ \E i \in DOMAIN snaps : AddSnap(i)
         \/ OtherNew(<<>>)
Spec2 == Init /\ [][Next2]_vars

-----------------------------------------------------------------------------
(* Queries, as a scan over the members (a set of ranges) *)
None == <<>>
TheRange(S) == IF S = {} THEN None ELSE CHOOSE r \in S : TRUE
MembersSet(S) == LET m == Members(S) IN {m[i] : i \in DOMAIN m}

QContaining(M, v) == {r \in M : Has(r, v)}
QEnclosing(M, q) == {r \in M : Encloses(r, q)}
QRightmost(M, v) == LET C == {r \in M : r[1] <= Below(v)}
                    IN IF C = {} THEN None ELSE CHOOSE r \in C : \A s \in C : s[1] <= r[1]
QLeftmost(M, v) == LET C == {r \in M : r[2] >= Above(v)}
                   IN IF C = {} THEN None ELSE CHOOSE r \in C : \A s \in C : s[1] >= r[1]
QIntersects(M, q) == \E r \in M : Connected(r, q) /\ ~IsEmpty(Intersection(r, q))
QOverlapping(M, q) == {r \in M : Connected(r, q)}
QEnclosedBy(M, q) == {r \in M : Encloses(q, r)}

\* a set of disconnected ranges, ascending, flattened
RECURSIVE Flat(_)
Flat(S) == IF S = {} THEN <<>>
           ELSE LET r == CHOOSE r \in S : \A s \in S : r[1] <= s[1]
                IN r \o Flat(S \ {r})
RECURSIVE FlatSeq(_)
FlatSeq(m) == IF m = <<>> THEN <<>> ELSE Head(m) \o FlatSeq(Tail(m))

ValueQueries == {"contains", "range_containing", "rightmost", "leftmost"}
RangeQueries == {"encloses", "range_enclosing", "intersects", "overlapping", "enclosed_by"}
WholeQueries == {"len", "is_empty", "span", "as_ranges"}

QueryValue(op, M, v) ==
  CASE op = "contains" -> B(QContaining(M, v) # {})
    [] op = "range_containing" -> TheRange(QContaining(M, v))
    [] op = "rightmost" -> QRightmost(M, v)
    [] op = "leftmost" -> QLeftmost(M, v)
QueryRange(op, M, q) ==
  CASE op = "encloses" -> B(QEnclosing(M, q) # {})
    [] op = "range_enclosing" -> TheRange(QEnclosing(M, q))
    [] op = "intersects" -> B(QIntersects(M, q))
    [] op = "overlapping" -> Flat(QOverlapping(M, q))
    [] op = "enclosed_by" -> Flat(QEnclosedBy(M, q))
QueryWhole(op, M) ==
  CASE op = "len" -> <<Cardinality(M)>>
    [] op = "is_empty" -> B(M = {})
    [] op = "span" -> IF M = {} THEN ERR ELSE SpanOfAll(M)
    [] op = "as_ranges" -> Flat(M)

Query(c, S) ==
  LET M == MembersSet(S) IN
  CASE c.op \in ValueQueries -> QueryValue(c.op, M, c.v)
    [] c.op \in RangeQueries -> QueryRange(c.op, M, c.q)
    [] c.op \in WholeQueries -> QueryWhole(c.op, M)
    [] c.op = "encloses_all_set" -> B(\A m \in MembersSet(Union(c.rs)) : QEnclosing(M, m) # {})
    [] c.op = "encloses_all" -> B(\A i \in DOMAIN c.rs : QEnclosing(M, c.rs[i]) # {})
=============================================================================
