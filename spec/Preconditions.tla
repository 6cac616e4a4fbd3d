---------------------------- MODULE Preconditions ---------------------------
(* Argument checks.  Classes are numbers, anc[c] is the set of c and all its
   ancestors; a class info is a class or a tuple of class infos.  A value is
   [none, truthy, cls]; legal values of check_in are numbers.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Classes(_)
Classes(f) == IF f.k = "class" THEN {f.c} ELSE UNION {Classes(f.of[i]) : i \in DOMAIN f.of}
Sub(anc, c, f) == anc[c] \cap Classes(f) # {}
\* what each check lets through
Passes(anc, op, xs, f) ==
  CASE op = "not_none" -> ~xs[1].none
    [] op = "arg" -> xs[1].truthy
    [] op = "state" -> xs[1].truthy
    [] op = "args_none" -> \A i \in DOMAIN xs : xs[i].none
    [] op = "args_not_none" -> \A i \in DOMAIN xs : ~xs[i].none
    [] op = "isinstance" -> Sub(anc, xs[1].cls, f)
    [] op = "opt_isinstance" -> xs[1].none \/ Sub(anc, xs[1].cls, f)
    [] op = "all_isinstance" -> \A i \in DOMAIN xs : Sub(anc, xs[i].cls, f)
    [] op = "issubclass" -> Sub(anc, xs[1].cls, f)
In(x, legal) == \E i \in DOMAIN legal : legal[i] = x
\* and how it refuses the rest
Error(op) == CASE op = "state" -> "AssertionError"
               [] op \in {"isinstance", "opt_isinstance", "all_isinstance", "issubclass"} -> "TypeError"
               [] OTHER -> "ValueError"
Returns == {"not_none", "isinstance", "opt_isinstance", "issubclass"}
Speaks == {"not_none", "arg", "state", "args_none", "args_not_none"}
\* a message: the pieces between the places for its arguments
RECURSIVE Fill(_, _)
Fill(pieces, args) == IF args = <<>> THEN pieces[1] ELSE pieces[1] \o args[1] \o Fill(Tail(pieces), Tail(args))
=============================================================================
