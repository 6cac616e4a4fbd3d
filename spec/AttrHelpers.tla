---------------------------- MODULE AttrHelpers -----------------------------
(* Objects with attributes of the declared kinds.  Kinds: inst (a type asked
   for), opt (that or null, null by default), dflt (that type, with a default),
   optdflt (that type or null, with a default),
   factory (made anew for each object), imm (an immutable collection of what is
   given), optimm (the same, empty for null or nothing), builder (a private
   builder), nonempty (whatever is not empty).  An argument is absent, null, fits, other (another type), or for
   collections a sequence of elements.  State: the attributes of the objects
   made so far, and what has been added to what they hold.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Elems
Kinds == {"inst", "opt", "dflt", "optdflt", "factory", "imm", "optimm", "builder", "nonempty"}
Args(k) == CASE k \in {"inst", "opt", "dflt", "optdflt", "factory"} -> {"absent", "null", "fits", "sub", "other"}
             [] k \in {"imm", "optimm"} -> {"absent", "null", "some", "none", "mutable", "other"}
             [] k = "builder" -> {"absent", "some"}
             [] k = "nonempty" -> {"absent", "null", "some", "none"}
\* what an argument makes of the attribute: its value, or an error
Value(k, a) ==
  CASE k \in {"inst", "dflt"} -> IF a = "absent" THEN (IF k = "dflt" THEN "default" ELSE "err") ELSE IF a \in {"fits", "sub"} THEN "given" ELSE "err"
    [] k = "opt" -> IF a \in {"absent", "null"} THEN "null" ELSE IF a \in {"fits", "sub"} THEN "given" ELSE "err"
    [] k = "optdflt" -> IF a = "absent" THEN "default" ELSE IF a = "null" THEN "null" ELSE IF a \in {"fits", "sub"} THEN "given" ELSE "err"
    [] k = "factory" -> IF a = "absent" THEN "fresh" ELSE "given"
    [] k = "imm" -> IF a \in {"some", "none", "mutable"} THEN "collected" ELSE "err"
    [] k = "optimm" -> IF a \in {"absent", "null"} THEN "empty" ELSE IF a \in {"some", "none", "mutable"} THEN "collected" ELSE "err"
    [] k = "builder" -> IF a = "absent" THEN "fresh" ELSE "err"
    [] k = "nonempty" -> IF a = "some" THEN "given" ELSE "err"
\* which types a kind can be declared of: collections which nobody can change, or any
Declarable(k, collection) == k \in {"imm", "optimm", "builder"} => collection
-----------------------------------------------------------------------------
VARIABLES objs, src
vars == <<objs, src>>
\* objects hold: fresh things of their own, or a collection of what src held then
Init == objs = <<>> /\ src = {}
Contents(k, a) == IF Value(k, a) = "collected" THEN (IF a = "mutable" THEN src ELSE IF a = "some" THEN Elems ELSE {}) ELSE {}
Make(k, a) == /\ objs' = (IF Value(k, a) = "err" THEN objs ELSE Append(objs, [k |-> k, v |-> Value(k, a), has |-> Contents(k, a)]))
              /\ UNCHANGED src
\* adding to a list which a collection was made of, or to what a factory or builder made
Feed(e) == src' = src \cup {e} /\ UNCHANGED objs
Add(i, e) == /\ objs[i].v = "fresh" /\ objs' = [objs EXCEPT ![i].has = @ \cup {e}] /\ UNCHANGED src
Next == \/ \E k \in Kinds : \E a \in Args(k) : Make(k, a)
        \/ \E e \in Elems : Feed(e) \/ \E i \in DOMAIN objs : Add(i, e)
Spec == Init /\ [][Next]_vars
Bound == Len(objs) <= 2
\* objects share nothing, with one another or with what they were made of
Apart == [][\A i \in DOMAIN objs : objs'[i] = objs[i] \/ \A j \in DOMAIN objs : j # i => objs'[j] = objs[j]]_vars
Kept == [][src' # src => objs' = objs]_vars
Frozen == [][\A i \in DOMAIN objs : objs[i].v # "fresh" => objs'[i] = objs[i]]_vars
=============================================================================
