----------------------------- MODULE ObjParams ------------------------------
(* Objects made from parameters.  A world w has
     things : id -> [kind, good, makes]   - objects: "plain" ones, functions
              "fn", classes with from_parameters "classfp" and without
              "class"; good, whether it is of the expected type; makes, what
              calling it gives: "good", "bad" (of another type) or "fails"
     exprs  : text -> [form, mod, id]     - expressions: a "literal", a name
              "bare" of the caller's context, a "dotted" name of something in
              module mod, or a "bad" one that cannot be evaluated
     mods   : the modules that can be imported, as sequences of names
   A request r is
     [acc, p, ctx, svals, sfacts, sexprs, dv, df, vname, fname]
   - accessor, path, names known in the context given, special values and
   factories (name -> id; for evaluate, name -> expression), default value
   and factory (ids, "" when none), and the names of the parameters looked for
   in a namespace.                                                           *)
EXTENDS ParamTree
Res(k, id, by, calls) == [k |-> k, id |-> id, by |-> by, calls |-> calls]
Err(calls) == Res("err", "", "", calls)
Unpromised == Res("any", "", "", <<>>)
Obj(id) == Res("obj", id, "", <<>>)
Absently == Res("nothing", "", "", <<>>)

\* calls are [by, arg, tree, prefix]: the argument is a namespace or there is none
Call(by, tree, prefix) == [by |-> by, arg |-> "params", tree |-> tree, prefix |-> prefix]
Bare(by) == [by |-> by, arg |-> "none", tree |-> Nothing, prefix |-> <<>>]
Checked(w, id) == IF w.things[id].good THEN Obj(id) ELSE Err(<<>>)
Apply(w, id, tree, prefix) ==
  LET t == w.things[id]
      c == IF t.kind = "class" THEN <<Bare(id)>> ELSE <<Call(id, tree, prefix)>>
  IN IF t.kind = "plain" THEN Err(<<>>)
     ELSE IF t.makes = "good" THEN Res("made", "", id, c) ELSE Err(c)

\* importing a module makes its parents available too
Covers(imports, m) == \E i \in imports : i = m \/ Prefix(m, i)
\* evaluation: [k, id]
EvalOk(id) == [k |-> "ok", id |-> id]
EvalErr == [k |-> "err", id |-> ""]
EvalAny == [k |-> "any", id |-> ""]
Eval(w, text, imports, ctx) ==
  IF ~(imports \subseteq w.mods) THEN EvalErr
  ELSE IF text \notin DOMAIN w.exprs THEN EvalAny
  ELSE LET e == w.exprs[text] IN
       CASE e.form = "bad" -> EvalErr
         [] e.form = "literal" -> EvalOk(e.id)
         [] e.form = "bare" -> IF text \in ctx THEN EvalOk(e.id) ELSE EvalErr
         \* (of a module not imported nothing is promised: it may have been, by somebody else)
         [] e.form = "dotted" -> IF Covers(imports, e.mod) THEN EvalOk(e.id) ELSE IF e.mod \notin w.mods THEN EvalErr ELSE EvalAny
\* a dotted name standing alone has its modules imported
Auto(w, text) == IF text \in DOMAIN w.exprs /\ w.exprs[text].form = "dotted" THEN {w.exprs[text].mod} ELSE {}
-----------------------------------------------------------------------------
StrAt(f, p) == p \in DOMAIN f /\ f[p].t = "str"
\* the modules a namespace imports; a list of names is recorded with its parts
ImportsOk(r) == r.imports # "bad"
At(r, name) == Append(r.p, name)

FromDefaults(w, r, tree, prefix, otherwise) ==
  IF r.dv # "" THEN Checked(w, r.dv) ELSE IF r.df # "" THEN Apply(w, r.df, tree, prefix) ELSE otherwise
Then(w, ev, act(_)) == CASE ev.k = "err" -> Err(<<>>) [] ev.k = "any" -> Unpromised [] OTHER -> act(ev.id)
FromNamespace(w, f, r, prefix) ==
  LET v == At(r, r.vname)  y == At(r, r.fname)  below == Below(f, r.p)
      check(id) == Checked(w, id)
      apply(id) == Apply(w, id, below, prefix)
  IN IF Present(f, v) /\ Present(f, y) THEN Err(<<>>)
     ELSE IF Present(f, v)
     THEN IF ~StrAt(f, v) THEN Err(<<>>)
          ELSE IF f[v].v \in DOMAIN r.svals THEN check(r.svals[f[v].v])
          ELSE IF f[v].v \in DOMAIN r.sfacts THEN apply(r.sfacts[f[v].v])
          ELSE IF ~ImportsOk(r) THEN Err(<<>>)
          ELSE Then(w, Eval(w, f[v].v, r.mods, r.ctx), check)
     ELSE IF Present(f, y)
     THEN IF ~StrAt(f, y) THEN Err(<<>>)
          \* (special names are for values)
          ELSE IF f[y].v \in DOMAIN r.sfacts THEN Unpromised
          ELSE IF ~ImportsOk(r) THEN Err(<<>>)
          ELSE Then(w, Eval(w, f[y].v, r.mods, r.ctx), apply)
     ELSE FromDefaults(w, r, below, prefix, Err(<<>>))
Object(w, f, r, prefix) ==
  LET check(id) == Checked(w, id) IN
  IF ~Present(f, r.p) THEN FromDefaults(w, r, Nothing, prefix, Err(<<>>))
  ELSE IF IsNs(f[r.p]) THEN FromNamespace(w, f, r, prefix)
  ELSE IF ~StrAt(f, r.p) THEN Err(<<>>)
  ELSE LET s == f[r.p].v IN
       IF s \in DOMAIN r.svals THEN check(r.svals[s])
       ELSE IF s \in DOMAIN r.sfacts THEN Apply(w, r.sfacts[s], Nothing, prefix)
       ELSE Then(w, Eval(w, s, Auto(w, s), r.ctx), check)
Evaluated(w, f, r) ==
  LET check(id) == Checked(w, id)
      mapped(s) == IF s \in DOMAIN r.sexprs THEN r.sexprs[s] ELSE s
  IN IF Present(f, r.p) /\ IsNs(f[r.p])
     THEN LET v == At(r, r.vname) IN
          IF ~StrAt(f, v) \/ ~ImportsOk(r) THEN Err(<<>>) ELSE Then(w, Eval(w, mapped(f[v].v), r.mods, r.ctx), check)
     ELSE IF Present(f, r.p)
     THEN IF ~StrAt(f, r.p) THEN Err(<<>>) ELSE Then(w, Eval(w, mapped(f[r.p].v), Auto(w, f[r.p].v), r.ctx), check)
     ELSE IF r.acc = "optional_evaluate" THEN Absently
     ELSE IF r.dv # "" THEN IF w.things[r.dv].good THEN Obj(r.dv) ELSE Unpromised
     ELSE Err(<<>>)
\* prefix: the full name of the parameter
Outcome(w, f, r, prefix) == IF r.acc = "object" THEN Object(w, f, r, prefix) ELSE Evaluated(w, f, r)
=============================================================================
