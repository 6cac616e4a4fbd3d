---------------------------- MODULE ObjParamsMC -----------------------------
(* The whole decision table over a small world.                              *)
EXTENDS ObjParams, Json
CONSTANTS Wide
VARIABLES f, r, pc
T(k, g, m) == [kind |-> k, good |-> g, makes |-> m]
E(form, mod, id) == [form |-> form, mod |-> mod, id |-> id]
W == [things |-> [good |-> T("plain", TRUE, ""), bad |-> T("plain", FALSE, ""), other |-> T("plain", TRUE, ""),
                  fn |-> T("fn", FALSE, "good"), fp |-> T("classfp", FALSE, "good"), cls |-> T("class", FALSE, "good"),
                  wrong |-> T("fn", FALSE, "bad"), fail |-> T("classfp", FALSE, "fails"), dflt |-> T("fn", FALSE, "good")],
      exprs |-> ("g" :> E("bare", <<>>, "good")) @@ ("b" :> E("bare", <<>>, "bad")) @@ ("f" :> E("bare", <<>>, "fn")) @@ ("c" :> E("bare", <<>>, "cls"))
                @@ ("w" :> E("bare", <<>>, "wrong")) @@ ("x" :> E("bare", <<>>, "fail"))
                @@ ("m.g" :> E("dotted", <<"m">>, "good")) @@ ("m.f" :> E("dotted", <<"m">>, "fp")) @@ ("p.q.f" :> E("dotted", <<"p", "q">>, "fp"))
                @@ ("no.g" :> E("dotted", <<"no">>, "good")) @@ ("1 +" :> E("bad", <<>>, "")) @@ ("zzz" :> E("bad", <<>>, "")),
      mods |-> {<<"m">>, <<"p">>, <<"p", "q">>}]
Names == {"g", "b", "f", "c", "w", "x"}
S(v) == [t |-> "str", v |-> v, n |-> 0]
NullLeaf == [t |-> "null", v |-> "", n |-> 0]
IntLeaf == [t |-> "int", v |-> "5", n |-> 50]
Texts == {"sv", "sf", "g", "b", "f", "m.f", "p.q.f", "1 +"} \cup (IF Wide THEN {"c", "w", "x", "zzz", "m.g", "no.g", "sb"} ELSE {})
Slots == {Absent, NullLeaf, IntLeaf} \cup {S(v) : v \in Texts}
With(p, x) == IF x = Absent THEN Nothing ELSE (p :> x)
P == <<"o">>
Trees == {With(P, x) : x \in Slots}
         \cup {(P :> Ns) @@ With(<<"o", "value">>, v) @@ With(<<"o", "factory">>, y) @@ (<<"o", "k">> :> IntLeaf) : v, y \in Slots}
NoReq == [acc |-> "", p |-> P, ctx |-> {}, svals |-> <<>>, sfacts |-> <<>>, sexprs |-> <<>>, dv |-> "", df |-> "", vname |-> "value", fname |-> "factory",
          imports |-> "ok", mods |-> {}]
Init == f \in Trees /\ r = NoReq /\ pc = 0
Ask == /\ pc = 0 /\ pc' = 1 /\ UNCHANGED f
       /\ \E acc \in {"object", "evaluate", "optional_evaluate"}, ctx \in {{}, Names}, dv \in {"", "other", "bad"}, df \in {"", "dflt", "wrong"},
             im \in {{}, {<<"m">>}, {<<"p", "q">>, <<"m">>}, {<<"no">>}} :
            /\ acc # "object" => df = ""
            /\ acc = "optional_evaluate" => (dv = "" /\ ctx = {})
            /\ ~Wide => (dv # "bad" /\ df # "wrong" /\ im # {<<"no">>})
            /\ r' = [NoReq EXCEPT !.acc = acc, !.ctx = ctx, !.dv = dv, !.df = df, !.mods = IF P \in DOMAIN f /\ IsNs(f[P]) THEN im ELSE {},
                      !.svals = IF acc = "object" THEN [sv |-> "good", sb |-> "bad"] ELSE <<>>, !.sfacts = IF acc = "object" THEN [sf |-> "fp"] ELSE <<>>,
                      !.sexprs = IF acc = "object" THEN <<>> ELSE [sv |-> "g", sf |-> "f"]]
Next == Ask
Laws ==
  pc = 1 =>
    LET o == Outcome(W, f, r, P)  x == Lookup(f, P)
        v == Lookup(f, <<"o", "value">>)  y == Lookup(f, <<"o", "factory">>)
        neither == ~Present(f, P) \/ (IsNs(x) /\ ~Present(f, <<"o", "value">>) /\ ~Present(f, <<"o", "factory">>)) IN
    \* at most one factory is called, and what it made is what comes back
    /\ Len(o.calls) <= 1
    /\ (o.k = "made") => (Len(o.calls) = 1 /\ o.calls[1].by = o.by)
    /\ o.k \in {"obj", "nothing"} => o.calls = <<>>
    /\ o.k = "obj" => W.things[o.id].good
    \* it is given the namespace, or an empty one where there is none
    /\ \A i \in DOMAIN o.calls : o.calls[i].arg = "params" => (o.calls[i].tree = (IF IsNs(x) THEN Below(f, P) ELSE Nothing) /\ o.calls[i].prefix = P)
    \* defaults are for when nothing is named
    /\ (r.acc = "object" /\ neither /\ o.k # "any") =>
         o = (IF r.dv # "" THEN Checked(W, r.dv) ELSE IF r.df # "" THEN Apply(W, r.df, IF IsNs(x) THEN Below(f, P) ELSE Nothing, P) ELSE Err(<<>>))
    /\ (~neither) => o = Outcome(W, f, [r EXCEPT !.dv = "", !.df = ""], P)
    /\ (r.acc = "object" /\ Present(f, <<"o", "value">>) /\ Present(f, <<"o", "factory">>)) => o = Err(<<>>)
    \* a special name needs no evaluation
    /\ (r.acc = "object" /\ (x = S("sv") \/ (v = S("sv") /\ ~Present(f, <<"o", "factory">>)))) => o = Obj("good")
    /\ (r.acc = "object" /\ x = S("sf")) => (o.k = "made" /\ o.by = "fp")
    /\ (r.acc # "object") => o.calls = <<>>
Visit == pc = 0 \/ PrintT(ToJson([tree |-> Entries(f), req |-> r, want |-> Outcome(W, f, r, P).k]))
=============================================================================
