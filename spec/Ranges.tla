------------------------------- MODULE Ranges -------------------------------
(* Ranges over a totally ordered endpoint type, as cuts of the order.

   N endpoint values 1..N are distinguished.  A cut is an integer 0..TOP:
     0       below all values
     2v-1    just below value v
     2v      just above value v
     TOP     above all values (2N+1)
   A range is a pair <<lower cut, upper cut>>.  Between cut k and cut k+1 lies
   atom k: the single point v for k = 2v-1, the (dense) gap between two
   neighbouring values otherwise.  Atoms(r) is the point set that r denotes; it
   is the meaning against which the operations, defined on cuts the way the
   documentation words them, are checked in RangesMC.                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT N
TOP == 2 * N + 1
Cuts == 0..TOP
Values == 1..N
Below(v) == 2 * v - 1
Above(v) == 2 * v

ValidBounds(lo, hi) == lo <= hi /\ lo # TOP /\ hi # 0
RangeUniverse == {r \in Cuts \X Cuts : ValidBounds(r[1], r[2])}
Atoms(r) == r[1] .. (r[2] - 1)

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

-----------------------------------------------------------------------------
(* The operations, as the API documents them *)
IsEmpty(r) == r[1] = r[2]
Has(r, v) == r[1] <= Below(v) /\ Above(v) <= r[2]
Encloses(a, b) == a[1] <= b[1] /\ b[2] <= a[2]
Connected(a, b) == a[1] <= b[2] /\ b[1] <= a[2]
Intersection(a, b) == <<Max2(a[1], b[1]), Min2(a[2], b[2])>>   \* when Connected
Span(a, b) == <<Min2(a[1], b[1]), Max2(a[2], b[2])>>

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
SpanOfAll(S) == <<MinOf({r[1] : r \in S}), MaxOf({r[2] : r \in S})>>

Forms == {"open", "closed", "closed_open", "open_closed", "less_than", "at_most",
          "greater_than", "at_least", "all"}
LowerCut(f, a) == CASE f \in {"open", "open_closed", "greater_than"} -> Above(a)
                    [] f \in {"closed", "closed_open", "at_least"} -> Below(a)
                    [] OTHER -> 0
UpperCut(f, b) == CASE f \in {"open", "closed_open", "less_than"} -> Below(b)
                    [] f \in {"closed", "open_closed", "at_most"} -> Above(b)
                    [] OTHER -> TOP

-----------------------------------------------------------------------------
(* Results are sequences of integers.  <<-1>>: ValueError.  -9 as an expected
   result: fails with any exception (<<-1>> or <<-2>>).                     *)
ERR == <<-1>>
ANYERR == <<-9>>
B(p) == IF p THEN <<1>> ELSE <<0>>
Accepts(expected, got) == \/ got = expected
                          \/ expected = ANYERR /\ (got = <<-1>> \/ got = <<-2>>)

HasLower(r) == r[1] # 0
HasUpper(r) == r[2] # TOP
\* endpoint value of a cut other than 0, TOP
EndpointOf(c) == (c + 1) \div 2
\* closed (1) or open (0)
LowerType(r) == r[1] % 2
UpperType(r) == (r[2] + 1) % 2

Make(f, a, b) == LET lo == LowerCut(f, a)
                     hi == UpperCut(f, b)
                 IN IF ValidBounds(lo, hi) THEN <<lo, hi>> ELSE ERR
SpanningSeq(rs) == IF rs = <<>> THEN ERR ELSE SpanOfAll({rs[i] : i \in DOMAIN rs})

Unary == {"is_empty", "has_lower", "has_upper", "lower_endpoint", "upper_endpoint",
          "lower_type", "upper_type"}
Binary == {"encloses", "is_connected", "intersects", "intersection", "span", "eq", "hash_agrees"}

EvalUnary(op, r) ==
  CASE op = "is_empty" -> B(IsEmpty(r))
    [] op = "has_lower" -> B(HasLower(r))
    [] op = "has_upper" -> B(HasUpper(r))
    [] op = "lower_endpoint" -> IF HasLower(r) THEN <<EndpointOf(r[1])>> ELSE ANYERR
    [] op = "upper_endpoint" -> IF HasUpper(r) THEN <<EndpointOf(r[2])>> ELSE ANYERR
    [] op = "lower_type" -> IF HasLower(r) THEN <<LowerType(r)>> ELSE ANYERR
    [] op = "upper_type" -> IF HasUpper(r) THEN <<UpperType(r)>> ELSE ANYERR

EvalBinary(op, a, b) ==
  CASE op = "encloses" -> B(Encloses(a, b))
    [] op = "is_connected" -> B(Connected(a, b))
    [] op = "intersects" -> B(Connected(a, b))
    [] op = "intersection" -> IF Connected(a, b) THEN Intersection(a, b) ELSE ERR
    [] op = "span" -> Span(a, b)
    [] op = "eq" -> B(a = b)
    [] op = "hash_agrees" -> B(TRUE)    \* a = b implies equal hashes; driver reports 1 when a # b

\* one call: [op, a, b, v, rs, f] with the fields its op needs
Eval(c) ==
  CASE c.op = "make" -> Make(c.f, c.v, c.w)
    [] c.op = "contains" -> B(Has(c.a, c.v))
    [] c.op = "spanning" -> SpanningSeq(c.rs)
    [] c.op \in Unary -> EvalUnary(c.op, c.a)
    [] c.op \in Binary -> EvalBinary(c.op, c.a, c.b)
=============================================================================
