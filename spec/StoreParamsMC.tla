--------------------------- MODULE StoreParamsMC ----------------------------
(* Sinks and sources described one after another, over a small world.        *)
EXTENDS StoreParams, Json
CONSTANTS Depth, Wide, Log
VARIABLES fs, last, h
vars == <<fs, last, h>>
T(k, m, roles, role, bytes) == [kind |-> k, makes |-> m, roles |-> roles, role |-> role, bytes |-> bytes]
E(form, mod, id) == [form |-> form, mod |-> mod, id |-> id]
KV == <<"kv">>
W == [things |-> [src |-> T("fn", "made", {"source", "linear"}, "", FALSE), lin |-> T("classfp", "made", {"linear"}, "", FALSE),
                  snk |-> T("classfp", "made", {"sink"}, "", FALSE), cls |-> T("class", "made", {"source", "linear"}, "", FALSE),
                  fails |-> T("fn", "fails", {"source", "linear", "sink"}, "", FALSE), plain |-> T("plain", "", {"source", "linear", "sink"}, "", FALSE),
                  csrc |-> T("described", "", {}, "source", FALSE), bsrc |-> T("described", "", {}, "source", TRUE), csnk |-> T("described", "", {}, "sink", FALSE)],
      exprs |-> ("s" :> E("bare", <<>>, "src")) @@ ("l" :> E("bare", <<>>, "lin")) @@ ("k" :> E("bare", <<>>, "snk")) @@ ("c" :> E("bare", <<>>, "cls"))
                @@ ("x" :> E("bare", <<>>, "fails")) @@ ("p" :> E("bare", <<>>, "plain")) @@ ("directory" :> E("bad", <<>>, "")) @@ ("ZIP" :> E("bad", <<>>, ""))
                @@ ("m.s" :> E("dotted", <<"m">>, "src")) @@ ("m.k" :> E("dotted", <<"m">>, "snk")) @@ ("no.s" :> E("dotted", <<"no">>, "src"))
                @@ ("kv.csrc" :> E("dotted", KV, "csrc")) @@ ("kv.bsrc" :> E("dotted", KV, "bsrc")) @@ ("kv.csnk" :> E("dotted", KV, "csnk")),
      mods |-> {<<"m">>, KV},
      paths |-> [a |-> [place |-> "a", at |-> ""], ai |-> [place |-> "a", at |-> "_index"], b |-> [place |-> "b", at |-> ""], bi |-> [place |-> "b", at |-> "_index"]],
      imps |-> <<>>, text |-> {1}]
S(v) == [t |-> "str", v |-> v, n |-> 0]
With(p, v) == IF v = "" THEN Nothing ELSE (p :> S(v))
Empty == [k |-> "dir", items |-> None]
Absent2 == [k |-> "none", items |-> None]
Junk == [k |-> "junk", items |-> None]
Map == [k |-> "map", items |-> (1 :> 1) @@ (2 :> 2)]
Init == fs \in {[a |-> x, b |-> y] : x, y \in (IF Wide THEN {Empty, Absent2, Junk, Map} ELSE {Empty, Absent2, Map})} /\ last = [k |-> "start"] /\ h = <<[start |-> fs, s |-> <<>>]>>
Types == {"", "zip", "file-map", "directory", "s", "k"} \cup (IF Wide THEN {"ZIP", "l", "c", "x", "p", "m.s", "m.k", "no.s", "kv.csrc", "kv.bsrc", "kv.csnk"} ELSE {})
Names == {"s", "l", "k", "c", "x", "p"}
\* a described store inside a description has its own namespace, of the same path
Tree(role, type, path) ==
  LET p == <<Usual(role)>>  i == p \o <<Usual(role)>> IN
  (p :> Ns) @@ With(Append(p, "type"), type) @@ With(Append(p, "path"), path)
  @@ (IF type \in {"kv.csrc", "kv.bsrc", "kv.csnk"} THEN (i :> Ns) @@ With(Append(i, "path"), path) @@ With(Append(i, "type"), IF role = "sink" THEN "zip" ELSE "file-map") ELSE Nothing)
Items(bytes) == {<<>>, <<[k |-> 1, v |-> 1]>>, <<[k |-> 2, v |-> IF bytes THEN 2 ELSE 1], [k |-> 1, v |-> 1]>>}
Step ==
  /\ Len(h[1].s) < Depth
  /\ \E role \in {"source", "linear", "sink"}, bytes \in BOOLEAN, type \in Types, path \in {"", "a", "ai", "b", "bi"}, ctx \in {{}, Names},
        im \in {{}, {<<"m">>, KV}} \cup (IF Wide THEN {{<<"no">>}} ELSE {}) :
       /\ role = "sink" => path \in {"", "a", "b"}
       /\ ~Wide => (im = {})
       \* (before the last request, only writing matters)
       /\ (Len(h[1].s) < Depth - 1) => (role = "sink" /\ type \in {"", "zip", "directory"} /\ path # "" /\ ctx = {} /\ im = {})
       /\ (type \in {"", "zip", "file-map", "directory", "ZIP"}) => (ctx = {} /\ im = {})
       /\ \E its \in IF role # "sink" THEN {<<>>} ELSE IF Log THEN {<<[k |-> 2, v |-> IF bytes THEN 2 ELSE 1], [k |-> 1, v |-> 1]>>} ELSE Items(bytes) :
          LET f == Tree(role, type, path)
              w == [W EXCEPT !.imps = (<<Usual(role)>> :> [ok |-> TRUE, mods |-> im])]
              q == [role |-> role, bytes |-> bytes, p |-> <<Usual(role)>>, ctx |-> ctx, base |-> <<>>, prefix |-> <<>>]
              d == Describe(w, f, q)  o == Used(w, fs, d) IN
          /\ fs' = After(fs, d, o, its)
          /\ last' = [k |-> "did", q |-> q, f |-> f, w |-> w, d |-> d, o |-> o, its |-> its, was |-> fs]
          /\ h' = IF Log THEN <<[h[1] EXCEPT !.s = Append(@, [role |-> role, bytes |-> bytes, type |-> type, path |-> path, ctx |-> ctx # {},
                                     mods |-> im, its |-> its, want |-> o.k, items |-> {<<x, o.items[x]>> : x \in DOMAIN o.items}])]>> ELSE <<[h[1] EXCEPT !.start = <<>>, !.s = Append(@, 0)]>>
Next == Step
-----------------------------------------------------------------------------
Again(q, f, w, s) == Used(w, s, Describe(w, f, q))
ReadOf(how, path, role, bytes, s) ==
  Again([role |-> role, bytes |-> bytes, p |-> <<"input">>, ctx |-> {}, base |-> <<>>, prefix |-> <<>>], Tree("source", how, path), W, s)
Laws ==
  last.k = "did" =>
    LET q == last.q  o == last.o  d == last.d  f == last.f  p == q.p  y == Append(p, "type") IN
    \* reading and what fails change nothing; writing only changes its own place
    /\ (o.k # "wrote") => fs = last.was
    /\ (o.k = "wrote") => (q.role = "sink" /\ \A x \in DOMAIN fs : x # d.at.place => fs[x] = last.was[x])
    \* what was written can be read back by whoever describes it alike, and only so
    /\ (o.k = "wrote" /\ d.k = "zip") =>
         \A r \in {"source", "linear"} :
           /\ ReadOf("zip", d.at.place, r, TRUE, fs).items = [x \in {last.its[i].k : i \in DOMAIN last.its} |-> last.its[CHOOSE i \in DOMAIN last.its : last.its[i].k = x].v]
           /\ ReadOf("zip", d.at.place, r, TRUE, fs).k = "reads" /\ ReadOf("file-map", d.at.place \o "i", r, TRUE, fs).k = "err"
    /\ (o.k = "wrote" /\ d.k = "dir") =>
         \A how \in {"", "file-map"}, r \in {"source", "linear"} :
           /\ ReadOf(how, d.at.place \o "i", r, q.bytes, fs) = ReadOf("", d.at.place \o "i", "source", q.bytes, fs)
           /\ ReadOf(how, d.at.place \o "i", r, q.bytes, fs).k = "reads"
           /\ DOMAIN ReadOf(how, d.at.place \o "i", r, q.bytes, fs).items = {last.its[i].k : i \in DOMAIN last.its}
    \* text reads what bytes do, where it is text
    /\ (q.role # "sink" /\ o.k = "reads" /\ ~o.bytes /\ y \notin DOMAIN f) =>
         LET b == Again([q EXCEPT !.bytes = TRUE], f, last.w, last.was) IN
         b.k = "reads" /\ DOMAIN b.items = DOMAIN o.items /\ \A x \in DOMAIN o.items : o.items[x] \in {b.items[x], -2}
    \* saying nothing is saying the default
    /\ (y \notin DOMAIN f) => o = Again(q, f @@ (y :> S(IF q.role = "sink" THEN "directory" ELSE "file-map")), last.w, last.was)
    \* every source can be used for reading through; not the other way round
    /\ (q.role = "source" /\ o.k \in {"reads", "made"}) => o = Again([q EXCEPT !.role = "linear"], f, last.w, last.was)
    \* contexts matter for what they name only
    /\ (y \in DOMAIN f /\ f[y].v \notin Names) => o = Again([q EXCEPT !.ctx = {}], f, last.w, last.was)
    /\ (y \in DOMAIN f /\ f[y].v \in Names /\ q.ctx = {}) => o.k = "err"
    \* what comes back can be used as asked
    /\ (o.k = "made") => (q.role \in last.w.things[o.by].roles /\ Len(d.calls) = 1 /\ d.calls[1].by = o.by)
    /\ Len(d.calls) <= 1
Visit == Len(h[1].s) < Depth \/ PrintT(ToJson([start |-> [x \in DOMAIN h[1].start |-> h[1].start[x].k], steps |-> h[1].s]))
=============================================================================
