------------------------------ MODULE RangesMC ------------------------------
(* Laws of the range algebra, checked on every pair (and triple) of ranges,
   and export of every call with its expected result.                       *)
EXTENDS Ranges, Json, IOUtils, TLC, SequencesExt
VARIABLES x, y

Init == x \in RangeUniverse /\ y \in RangeUniverse
Next == UNCHANGED <<x, y>>

\* point-set meaning; an empty range has no atoms but still a position
LawMembership == \A v \in Values : Has(x, v) <=> Below(v) \in Atoms(x)
LawEmpty == IsEmpty(x) <=> Atoms(x) = {}
LawEncloses == (~IsEmpty(y)) => (Encloses(x, y) <=> Atoms(y) \subseteq Atoms(x))
LawEnclosesOrder == Encloses(x, y) /\ Encloses(y, x) => x = y
LawConnected == Connected(x, y) <=> \E r \in RangeUniverse : Encloses(x, r) /\ Encloses(y, r)
LawConnectedPoints == (Atoms(x) \cap Atoms(y) # {}) => Connected(x, y)
LawIntersection ==
  Connected(x, y) => LET m == Intersection(x, y) IN
    /\ m \in RangeUniverse
    /\ Atoms(m) = Atoms(x) \cap Atoms(y)
    /\ Encloses(x, m) /\ Encloses(y, m)
    /\ \A r \in RangeUniverse : Encloses(x, r) /\ Encloses(y, r) => Encloses(m, r)
    /\ m = Intersection(y, x)
    /\ Intersection(x, <<0, TOP>>) = x
LawUnionWhenConnected == Connected(x, y) => Atoms(Span(x, y)) = Atoms(x) \cup Atoms(y)
LawSpan == LET s == Span(x, y) IN
    /\ s \in RangeUniverse
    /\ Encloses(s, x) /\ Encloses(s, y)
    /\ \A r \in RangeUniverse : Encloses(r, x) /\ Encloses(r, y) => Encloses(r, s)
    /\ s = SpanningSeq(<<x, y>>)
LawAssociative == \A z \in RangeUniverse :
    /\ Span(Span(x, y), z) = Span(x, Span(y, z))
    /\ (Connected(x, y) /\ Connected(y, z) /\ Connected(Intersection(x, y), z)
          /\ Connected(x, Intersection(y, z)))
       => Intersection(Intersection(x, y), z) = Intersection(x, Intersection(y, z))
LawConvex == \A a, b, c \in Values :
    (a <= b /\ b <= c /\ Has(x, a) /\ Has(x, c)) => Has(x, b)
LawForms == \A f \in Forms, a, b \in Values :
    LET r == Make(f, a, b) IN
      /\ r = ERR <=> (\/ f \in {"closed", "closed_open", "open_closed"} /\ b < a
                      \/ f = "open" /\ b <= a)
      /\ r # ERR =>
           /\ r \in RangeUniverse
           /\ HasLower(r) => EndpointOf(r[1]) = a /\ (LowerType(r) = 1 <=> f \in {"closed", "closed_open", "at_least"})
           /\ HasUpper(r) => EndpointOf(r[2]) = b /\ (UpperType(r) = 1 <=> f \in {"closed", "open_closed", "at_most"})
           /\ \A v \in Values : Has(r, v) <=>
                /\ CASE f \in {"open", "open_closed", "greater_than"} -> a < v
                     [] f \in {"closed", "closed_open", "at_least"} -> a <= v
                     [] OTHER -> TRUE
                /\ CASE f \in {"open", "closed_open", "less_than"} -> v < b
                     [] f \in {"closed", "open_closed", "at_most"} -> v <= b
                     [] OTHER -> TRUE

-----------------------------------------------------------------------------
Expect(c) == [c |-> c, e |-> Eval(c)]
Calls ==
  {Expect([op |-> "make", f |-> f, v |-> a, w |-> b]) : f \in Forms, a \in Values, b \in Values}
  \cup {Expect([op |-> "contains", a |-> r, v |-> v]) : r \in RangeUniverse, v \in Values}
  \cup {Expect([op |-> o, a |-> r]) : o \in Unary, r \in RangeUniverse}
  \cup {Expect([op |-> o, a |-> p, b |-> q]) : o \in Binary, p \in RangeUniverse, q \in RangeUniverse}
  \cup {Expect([op |-> "spanning", rs |-> <<>>])}
  \cup {Expect([op |-> "spanning", rs |-> <<p>>]) : p \in RangeUniverse}
  \cup {Expect([op |-> "spanning", rs |-> <<p, q>>]) : p \in RangeUniverse, q \in RangeUniverse}
Export == ndJsonSerialize(IOEnv.EXPORT, SetToSeq(Calls))
=============================================================================
