------------------------------ MODULE MiscUtils -----------------------------
(* Small helpers: shortened lists, names of files and classes, evaluation with
   modules at hand.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
\* the list whose elements are written as in q, no more than n of them
Limited(q, n) == IF Len(q) <= n THEN "[" \o Join(q, ", ") \o "]"
                 ELSE "[" \o Join(SubSeq(q, 1, n), ", ") \o " and " \o ToString(Len(q) - n) \o " more]"
\* a file name, as its characters, without its last extension
Dots(q) == {i \in DOMAIN q : q[i] = "."}
Stripped(q) == IF Dots(q) = {} THEN q ELSE SubSeq(q, 1, (CHOOSE i \in Dots(q) : \A j \in Dots(q) : j <= i) - 1)
\* names: that of its module (unless it is built in or has none), then those of the classes around it, then its own
FullName(module, path) == IF module \in {"", "builtins"} THEN Join(path, ".") ELSE module \o "." \o Join(path, ".")
-----------------------------------------------------------------------------
(* Evaluation.  Modules are paths of names; World has those which exist, with
   a number each; a context gives numbers to names.  An expression is a sum of
   terms: names of the context, or numbers of modules.                       *)
Prefixes(m) == {SubSeq(m, 1, k) : k \in 1..Len(m)}
Imported(ms) == UNION {Prefixes(ms[i]) : i \in DOMAIN ms}
Importable(W, ms) == Imported(ms) \subseteq DOMAIN W
Known(W, ctx, ms, t) == IF t.k = "name" THEN t.p[1] \in DOMAIN ctx ELSE t.p \in Imported(ms)
Value(W, ctx, t) == IF t.k = "name" THEN ctx[t.p[1]] ELSE W[t.p]
RECURSIVE Sum(_, _, _)
Sum(W, ctx, ts) == IF ts = <<>> THEN 0 ELSE Value(W, ctx, ts[1]) + Sum(W, ctx, Tail(ts))
\* asked: the type asked for is the one of numbers
Evaluate(W, ctx, ms, ts, asked) ==
  IF ~Importable(W, ms) THEN [res |-> "import", val |-> 0]
  ELSE IF \E i \in DOMAIN ts : ~Known(W, ctx, ms, ts[i]) THEN [res |-> "name", val |-> 0]
  ELSE IF ~asked THEN [res |-> "type", val |-> 0]
  ELSE [res |-> "ok", val |-> Sum(W, ctx, ts)]
-----------------------------------------------------------------------------
\* pairs with an id or a score
WithIdOk(r) == r.idstr /\ r.id # "" /\ ~r.none
ScoredOk(r) == r.float /\ ~r.none
=============================================================================
