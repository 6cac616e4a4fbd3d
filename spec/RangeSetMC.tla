----------------------------- MODULE RangeSetMC -----------------------------
EXTENDS RangeSet
CONSTANT MaxSnaps
Bounded == Len(snaps) <= MaxSnaps /\ Len(others) <= 1

InvMembers == LET m == Members(live) IN
  /\ \A i \in DOMAIN m : m[i] \in RangeUniverse /\ ~IsEmpty(m[i])
  /\ \A i, j \in DOMAIN m : i < j => m[i][2] < m[j][1] /\ ~Connected(m[i], m[j])
  /\ Union(m) = live
  \* maximality: every non-empty range inside the point set lies inside one member
  /\ \A r \in RangeUniverse : (~IsEmpty(r) /\ Atoms(r) \subseteq live)
        => \E i \in DOMAIN m : Encloses(m[i], r)
InvQueries == LET M == MembersSet(live) IN
  /\ \A v \in Values : /\ Cardinality(QContaining(M, v)) <= 1
                       /\ (QContaining(M, v) # {}) <=> Below(v) \in live
                       /\ QContaining(M, v) # {} =>
                            /\ QRightmost(M, v) \in QContaining(M, v)
                            /\ QLeftmost(M, v) \in QContaining(M, v)
  /\ \A q \in RangeUniverse :
       /\ Cardinality(QEnclosing(M, q)) <= 1
       /\ ~IsEmpty(q) => ((QEnclosing(M, q) # {}) <=> Atoms(q) \subseteq live)
       /\ QIntersects(M, q) <=> Atoms(q) \cap live # {}
       /\ QIntersects(M, q) => QOverlapping(M, q) # {}
       /\ QEnclosedBy(M, q) \subseteq QOverlapping(M, q)
PropSnapshotsImmutable == [][\A i \in DOMAIN snaps : snaps'[i] = snaps[i]]_vars
\* a step changes one set at most
PropOthersIndependent == [][Cardinality({i \in DOMAIN others : others'[i] # others[i]}) + B(live' # live)[1] <= 1]_vars
PropAddMonotone == [][(live \subseteq live') \/ live' = {}]_vars

=============================================================================
