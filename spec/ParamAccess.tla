---------------------------- MODULE ParamAccess -----------------------------
(* What each accessor of a set of parameters gives, for a request
     [acc, p, typ, cons, d, ps]  -  accessor, path, type asked for (for get),
   constraint, default ("none" when none is given) and paths (when several).
   An outcome is a value, a namespace, nothing, or an error; of some requests
   nothing is promised ("any").                                              *)
EXTENDS ParamTree
NoDefault == [t |-> "none", v |-> "", n |-> 0]
NoCons == [k |-> "none", s |-> <<>>, c |-> <<>>, lo |-> 0, hi |-> 0, lob |-> "unb", hib |-> "unb"]
Val(x) == [k |-> "val", node |-> x, tree |-> Nothing]
Tree(f) == [k |-> "tree", node |-> Ns, tree |-> f]
None == [k |-> "nothing", node |-> Ns, tree |-> Nothing]
Err == [k |-> "err", node |-> Ns, tree |-> Nothing]
Unpromised == [k |-> "any", node |-> Ns, tree |-> Nothing]
Bool(b) == Val([t |-> "bool", v |-> IF b THEN "true" ELSE "false", n |-> IF b THEN 10 ELSE 0])

Required == {"string", "integer", "positive_integer", "floating_point", "boolean", "arbitrary_list", "get", "namespace"}
Optional == {"optional_string", "optional_integer", "optional_positive_integer", "optional_floating_point", "optional_float",
             "optional_boolean", "optional_boolean_with_default", "optional_arbitrary_list", "get_optional"}
TypeFor(r) ==
  CASE r.acc \in {"string", "optional_string"} -> "str"
    [] r.acc \in {"integer", "positive_integer", "optional_integer", "optional_positive_integer"} -> "int"
    [] r.acc \in {"floating_point", "optional_floating_point", "optional_float"} -> "float"
    [] r.acc \in {"boolean", "optional_boolean", "optional_boolean_with_default"} -> "bool"
    [] r.acc \in {"arbitrary_list", "optional_arbitrary_list"} -> "list"
    [] r.acc = "namespace" -> "ns"
    [] OTHER -> r.typ
\* (a truth value is an integer, an integer is no floating-point number)
HasType(T, x) == CASE T = "int" -> x.t \in {"int", "bool"}
                   [] T = "object" -> TRUE
                   [] OTHER -> x.t = T
In(q, e) == \E i \in DOMAIN q : q[i] = e
Meets(c, x) ==
  CASE c.k = "none" -> TRUE
    [] c.k = "options" -> In(c.s, x.v)
    [] c.k = "range" -> /\ c.lob = "unb" \/ x.n > c.lo \/ (c.lob = "closed" /\ x.n = c.lo)
                        /\ c.hib = "unb" \/ x.n < c.hi \/ (c.hib = "closed" /\ x.n = c.hi)
Suits(r, x) == /\ HasType(TypeFor(r), x) /\ Meets(r.cons, x)
               /\ r.acc \in {"positive_integer", "optional_positive_integer"} => x.n > 0
Given(r) == r.d.t # "none"
Found(f, p) == IF IsNs(f[p]) THEN Tree(Below(f, p)) ELSE Val(f[p])

RequiredOutcome(f, r) ==
  LET x == Lookup(f, r.p) IN
  IF x = Absent THEN IF Given(r) THEN IF Suits(r, r.d) THEN Val(r.d) ELSE Err
                     ELSE Err
  ELSE IF Null(x) THEN IF Given(r) \/ r.typ = "object" THEN Unpromised ELSE Err
  ELSE IF Suits(r, x) THEN Found(f, r.p) ELSE Err
OptionalOutcome(f, r) ==
  LET x == Lookup(f, r.p) IN
  IF ~Present(f, r.p) THEN IF ~Given(r) THEN None
                           ELSE IF Suits(r, r.d) THEN Val(r.d)
                           ELSE IF r.acc \in {"optional_positive_integer"}
                                   \/ (r.acc = "optional_floating_point" /\ r.d.t = "float") THEN Err
                           ELSE Unpromised
  ELSE IF Given(r) /\ ~HasType(TypeFor(r), r.d) THEN Unpromised
  ELSE IF Suits(r, x) THEN Found(f, r.p) ELSE Err
EnumOutcome(f, r) ==
  LET x == Lookup(f, r.p) IN
  IF Present(f, r.p)
  THEN IF x.t = "str" /\ In(r.cons.s, x.v)
       THEN Val([t |-> "enum", v |-> r.cons.c[CHOOSE i \in DOMAIN r.cons.s : r.cons.s[i] = x.v], n |-> 0])
       ELSE Err
  ELSE IF Given(r) THEN Val(r.d) ELSE Err
Outcome(f, r) ==
  LET x == Lookup(f, r.p) IN
  CASE r.acc \in Required -> RequiredOutcome(f, r)
    [] r.acc \in Optional -> OptionalOutcome(f, r)
    [] r.acc = "enum" -> EnumOutcome(f, r)
    [] r.acc = "in" -> Bool(Present(f, r.p))
    [] r.acc = "has_namespace" -> Bool(IsNs(x))
    [] r.acc = "optional_namespace" -> IF IsNs(x) THEN Tree(Below(f, r.p)) ELSE None
    [] r.acc = "namespace_or_empty" -> IF IsNs(x) THEN Tree(Below(f, r.p)) ELSE IF Present(f, r.p) THEN Err ELSE Tree(Nothing)
    [] r.acc = "exactly_one" -> IF Cardinality({i \in DOMAIN r.ps : Present(f, r.ps[i])}) = 1 THEN None ELSE Err
    [] r.acc = "as_nested_dicts" -> Tree(f)
SubNamespaces(f) == {Below(f, p) : p \in {p \in DOMAIN f : Len(p) = 1 /\ IsNs(f[p])}}
=============================================================================
