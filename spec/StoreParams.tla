---------------------------- MODULE StoreParams -----------------------------
(* Key-value stores described by parameters.  A description is a namespace
   with a type - a shortcut, or the name of a class or function to which the
   namespace is given - and whatever that needs, such as a path.
     fs : place -> [k, items]   - what is where: nothing ("none"), an empty
              directory "dir", a directory store "store", an archive "zip",
              a document map "map", something else "junk"; items,
              key -> value, of stores, archives and maps
     w.things : id -> [kind, makes, roles, role, bytes]  - as in ObjParams, and
              what the result can be used as; kind "described" for a function
              which itself makes a store from parameters
     w.exprs, w.mods : as in ObjParams
     w.paths : text -> [place, at]   - at "" or "_index", the map in a directory
     w.imps : namespace -> [ok, mods]  - the modules it asks for
     w.text  : the values which are the encoding of a text
   A request q is [role, bytes, p, ctx, base, prefix]: what is wanted (a
   "source", a "linear" source, a "sink"), of bytes or text, the namespace,
   names known in the context given, and where we are in the parameters.     *)
EXTENDS ObjParams
ShortcutsOf(role) == IF role = "sink" THEN ("zip" :> "zip") @@ ("directory" :> "dir") @@ ("file-map" :> "dir")
                     ELSE ("zip" :> "zip") @@ ("file-map" :> "map")
DefaultOf(role) == IF role = "sink" THEN "dir" ELSE "map"
RolesOf(role) == IF role = "sink" THEN {"sink"} ELSE {"source", "linear"}
Desc(k, at, bytes, roles, by, calls) == [k |-> k, at |-> at, bytes |-> bytes, roles |-> roles, by |-> by, calls |-> calls]
Nowhere == [place |-> "", at |-> ""]
DErr(calls) == Desc("err", Nowhere, FALSE, {}, "", calls)
DAny == Desc("any", Nowhere, FALSE, {}, "", <<>>)
Usual(role) == IF role = "sink" THEN "output" ELSE "input"

\* one of the stores everybody knows, at the path the namespace names
Known(w, f, q, how) ==
  LET x == Append(q.p, "path") IN
  IF ~StrAt(f, x) \/ f[x].v \notin DOMAIN w.paths THEN DErr(<<>>)
  ELSE Desc(how, w.paths[f[x].v], q.bytes, RolesOf(q.role), "", <<>>)
RECURSIVE Describe(_, _, _)
Applied(w, f, q, id) ==
  LET t == w.things[id]  below == Below(f, q.p)  here == q.prefix \o q.p
      c == IF t.kind = "class" THEN <<Bare(id)>> ELSE <<Call(id, below, here)>> IN
  CASE t.kind = "plain" -> DErr(<<>>)
    [] t.kind = "described" ->
         LET d == Describe(w, below, [role |-> t.role, bytes |-> t.bytes, p |-> <<Usual(t.role)>>, ctx |-> {}, base |-> q.base \o q.p, prefix |-> here]) IN
         IF d.k \in {"err", "any"} \/ q.role \in d.roles THEN d ELSE DErr(d.calls)
    [] t.makes = "fails" -> DErr(c)
    [] OTHER -> IF q.role \in t.roles THEN Desc("made", Nowhere, FALSE, t.roles, id, c) ELSE DErr(c)
Describe(w, f, q) ==
  LET y == Append(q.p, "type")
      im == IF (q.base \o q.p) \in DOMAIN w.imps THEN w.imps[q.base \o q.p] ELSE [ok |-> TRUE, mods |-> {}] IN
  IF ~Present(f, q.p) THEN DErr(<<>>)                         \* no namespace, no path
  ELSE IF ~IsNs(f[q.p]) \/ Append(q.p, "value") \in DOMAIN f THEN DAny
  ELSE IF ~Present(f, y) THEN Known(w, f, q, DefaultOf(q.role))
  ELSE IF ~StrAt(f, y) THEN DErr(<<>>)
  ELSE IF f[y].v \in DOMAIN ShortcutsOf(q.role)
       THEN IF im.ok /\ im.mods \subseteq w.mods THEN Known(w, f, q, ShortcutsOf(q.role)[f[y].v]) ELSE DAny
  ELSE IF ~im.ok THEN DErr(<<>>)
  ELSE LET ev == Eval(w, f[y].v, im.mods, q.ctx) IN
       CASE ev.k = "err" -> DErr(<<>>) [] ev.k = "any" -> DAny [] OTHER -> Applied(w, f, q, ev.id)
-----------------------------------------------------------------------------
(* Using what was described: reading everything, or writing a few items in one
   session.  k: "err", "reads" (with the items; -2 for what is no text),
   "wrote", "made" (something of ours, by by), "any".                         *)
Out(k, items, bytes, by) == [k |-> k, items |-> items, bytes |-> bytes, by |-> by]
None == [x \in {} |-> 0]
OErr == Out("err", None, FALSE, "")
At2(fs, at) == IF at.place \in DOMAIN fs THEN fs[at.place] ELSE [k |-> "none", items |-> None]
Reading(w, items, bytes) == Out("reads", [x \in DOMAIN items |-> IF bytes \/ items[x] \in w.text THEN items[x] ELSE -2], bytes, "")
Used(w, fs, d) ==
  LET c == At2(fs, d.at) IN
  CASE d.k = "err" -> OErr
    [] d.k = "any" -> Out("any", None, FALSE, "")
    [] d.k = "made" -> Out("made", None, FALSE, d.by)
    [] "sink" \in d.roles ->
         IF (d.k = "zip" /\ c.k \in {"none", "zip", "map", "junk"}) \/ (d.k = "dir" /\ c.k = "dir") THEN Out("wrote", None, d.bytes, "") ELSE OErr
    [] d.k = "zip" -> IF d.at.at = "" /\ c.k = "zip" THEN Reading(w, c.items, d.bytes) ELSE OErr
    [] d.k = "map" -> IF (d.at.at = "_index" /\ c.k = "store") \/ (d.at.at = "" /\ c.k = "map") THEN Reading(w, c.items, d.bytes)
                      ELSE IF d.at.at = "" /\ c.k = "zip" THEN Out("any", None, FALSE, "") ELSE OErr
\* items to write: a sequence of [k, v], keys different
After(fs, d, out, items) ==
  IF out.k # "wrote" THEN fs
  ELSE [fs EXCEPT ![d.at.place] = [k |-> IF d.k = "zip" THEN "zip" ELSE "store",
                                   items |-> [x \in {items[i].k : i \in DOMAIN items} |-> items[CHOOSE i \in DOMAIN items : items[i].k = x].v]]]
=============================================================================
