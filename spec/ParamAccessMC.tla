--------------------------- MODULE ParamAccessMC ----------------------------
(* The whole table: what is there, which accessor asks for it, under which
   constraint, with which default.                                           *)
EXTENDS ParamAccess, Json
VARIABLES there, r, pc
vars == <<there, r, pc>>
L(t, v, n) == [t |-> t, v |-> v, n |-> n]
Samples == {L("str", "a", 0), L("str", "alias", 0), L("str", "", 0), L("str", "5", 0), L("int", "0", 0), L("int", "1", 10), L("int", "-1", -10), L("int", "7", 70),
            L("bool", "true", 10), L("bool", "false", 0), L("float", "0.0", 0), L("float", "1.5", 15), L("float", "-1.5", -15),
            L("list", "[\"list\", []]", 0), L("list", "[\"list\", [[\"int\", \"0\", 0]]]", 0), L("null", "", 0)}
Inner == [p \in {<<"x">>} |-> L("int", "3", 30)]
Trees == {Nothing} \cup {(<<"a">> :> s) : s \in Samples} \cup {(<<"a">> :> Ns), Under(<<"a">>, Inner) @@ (<<"a">> :> Ns)}
Paths == {<<"a">>, <<"a", "x">>, <<"b">>}
Range(lo, lob, hi, hib) == [NoCons EXCEPT !.k = "range", !.lo = lo, !.lob = lob, !.hi = hi, !.hib = hib]
Options(q) == [NoCons EXCEPT !.k = "options", !.s = q]
ConsFor(a) == CASE a \in {"string", "optional_string"} -> {NoCons, Options(<<"a", "5">>), Options(<<"">>), Options(<<>>)}
                [] a \in {"integer"} -> {NoCons, Range(0, "closed", 10, "open"), Range(0, "open", 0, "unb"), Range(0, "unb", 10, "closed")}
                [] a \in {"floating_point", "optional_floating_point", "optional_float"} ->
                     {NoCons, Range(0, "closed", 15, "open"), Range(0, "open", 0, "unb"), Range(0, "unb", 15, "closed")}
                [] a = "enum" -> {[NoCons EXCEPT !.k = "enum", !.s = <<"a", "b", "alias">>, !.c = <<"a", "b", "a">>]}
                [] OTHER -> {NoCons}
NoDefaults == {"namespace", "optional_float", "in", "has_namespace", "optional_namespace", "namespace_or_empty", "exactly_one", "as_nested_dicts"}
DefaultsFor(a, T) ==
  IF a \in NoDefaults THEN {NoDefault}
  ELSE IF a = "enum" THEN {NoDefault, L("enum", "a", 0), L("enum", "b", 0)}
  ELSE IF a = "optional_boolean_with_default" THEN {L("bool", "true", 10), L("bool", "false", 0)}
  ELSE {NoDefault} \cup {s \in Samples : ~Null(s) /\ (a \in Required \/ HasType(T, s))}
TypesFor(a) == IF a \in {"get", "get_optional"} THEN {"str", "int", "float", "bool", "list", "ns", "object"} ELSE {""}
Accs == Required \cup Optional \cup {"enum", "in", "has_namespace", "optional_namespace", "namespace_or_empty", "exactly_one", "as_nested_dicts"}
Req(a, p, T, c, d, ps) == [acc |-> a, p |-> p, typ |-> T, cons |-> c, d |-> d, ps |-> ps]
NoReq == Req("", <<>>, "", NoCons, NoDefault, <<>>)
Init == there \in Trees /\ r = NoReq /\ pc = 0
Ask == /\ pc = 0 /\ pc' = 1 /\ UNCHANGED there
       /\ \E a \in Accs, p \in Paths :
            \E T \in TypesFor(a), c \in ConsFor(a), ps \in (IF a = "exactly_one" THEN {<<>>, <<p>>, <<p, <<"c">>>>, <<<<"a">>, <<"a", "x">>>>, <<<<"a">>, <<"b">>>>} ELSE {<<>>}) :
              \E d \in DefaultsFor(a, TypeFor(Req(a, p, T, c, NoDefault, ps))) : r' = Req(a, p, T, c, d, ps)
Laws ==
  pc = 1 =>
    LET o == Outcome(there, r)  x == Lookup(there, r.p)
        pres == Present(there, r.p)
        bare == [r EXCEPT !.d = NoDefault] IN
    /\ IsTree(there)
    \* what comes back is what is there or the default, and suits
    /\ r.acc \in Required \cup Optional =>
         /\ o.k = "val" => (o.node \in {x, r.d} /\ Suits(r, o.node))
         /\ o.k = "tree" => (pres /\ IsNs(x) /\ o.tree = Below(there, r.p))
         /\ pres => o.k \in {"val", "tree", "err", "any"} /\ (o.k = "val" => o.node = x)
         /\ (pres /\ Suits(r, x) /\ ~Given(r)) => o.k # "err"
         /\ (pres /\ ~Suits(r, x) /\ ~Given(r)) => o.k = "err"
         \* a default changes nothing where there is a value
         /\ (pres /\ o.k # "any") => o = Outcome(there, bare)
    /\ (r.acc \in Required \cup {"enum"} /\ ~pres /\ ~Given(r) /\ r.typ # "object") => o.k = "err"
    /\ (r.acc \in Optional /\ ~pres /\ ~Given(r)) => o.k = "nothing"
    \* presence agrees across accessors
    /\ (r.acc = "in") => (o = Bool(TRUE) <=> Outcome(there, Req("get_optional", r.p, "object", NoCons, NoDefault, <<>>)).k # "nothing")
    /\ r.acc = "has_namespace" => /\ (o = Bool(TRUE)) <=> (Outcome(there, Req("namespace", r.p, "", NoCons, NoDefault, <<>>)).k = "tree")
                                  /\ (o = Bool(TRUE)) <=> (Outcome(there, Req("optional_namespace", r.p, "", NoCons, NoDefault, <<>>)).k = "tree")
    /\ (r.acc = "namespace_or_empty" /\ o.k = "tree" /\ o.tree # Nothing) => Outcome(there, Req("namespace", r.p, "", NoCons, NoDefault, <<>>)) = o
    /\ (r.acc = "exactly_one" /\ Len(r.ps) = 1) => (o.k = "nothing" <=> Present(there, r.ps[1]))
    \* the parts of a namespace are what dotted paths reach
    /\ (Len(r.p) = 2 /\ r.acc \in Required \cup Optional) => o = Outcome(Below(there, <<r.p[1]>>), [r EXCEPT !.p = <<r.p[2]>>])
Visit == pc = 0 \/ PrintT(ToJson([tree |-> Entries(there), req |-> r, want |-> Outcome(there, r).k]))
=============================================================================
