----------------------------- MODULE ParamLoadMC ----------------------------
(* Interpolation as a machine that replaces, in any order, parameters whose
   needs within the file are met, against the values as defined; and the
   reading of strings as parts.                                              *)
EXTENDS ParamLoad, Json
CONSTANTS Strings, MaxLen, Letters, Nested
VARIABLES own, ctx, res, pc
vars == <<own, ctx, res, pc>>
Env == [k \in {"e", "a"} |-> "env" \o k]
Values == {Text(s) : s \in Strings} \cup {[t |-> "int", v |-> "1", n |-> 10]}
Tops == {"a", "b", "c"}
Owns == {[p \in {<<k>> : k \in S} |-> f[p[1]]] : S \in SUBSET Tops, f \in [Tops -> Values]}
WithN(f, s) == IF Nested THEN f @@ (<<"n">> :> Ns) @@ (<<"n", "a">> :> s) ELSE f
Ctxs == {Nothing, (<<"c">> :> Text("ctx")), (<<"c">> :> Text("%a%")), (<<"n">> :> Ns) @@ (<<"n", "c">> :> [t |-> "int", v |-> "2", n |-> 20])}
Init == /\ own \in {WithN(f, s) : f \in Owns, s \in (IF Nested THEN Values ELSE {Ns})}
        /\ ctx \in Ctxs /\ res = Nothing /\ pc = "go"
\* res: the leaves replaced so far, each with its value as a tree with a root
Settled == DOMAIN res \cup (Leaves(own) \ RefLeaves(own))
ValNow(r) == IF r \notin DOMAIN own THEN Around(ctx, Env, r)
             ELSE IF r \in DOMAIN res THEN res[r]
             ELSE IF ~IsNs(own[r]) THEN Rooted(own[r])
             ELSE LET vals == [s \in {SubSeq(q, Len(r) + 1, Len(q)) : q \in BelowPaths(own, r)} |->
                                 IF r \o s \in DOMAIN res THEN res[r \o s] ELSE Rooted(own[r \o s])]
                  IN Rooted(Ns) @@ [q \in UNION {{s \o u : u \in DOMAIN vals[s]} : s \in DOMAIN vals} |->
                                      LET s == CHOOSE s \in DOMAIN vals : (s = q \/ Prefix(s, q)) /\ SubSeq(q, Len(s) + 1, Len(q)) \in DOMAIN vals[s]
                                                                          /\ \A z \in DOMAIN vals : (z = q \/ Prefix(z, q)) => Len(z) <= Len(s)
                                      IN vals[s][SubSeq(q, Len(s) + 1, Len(q))]]
NewValue(p) ==
  LET ps == Parts(own[p].v) IN
  IF Len(ps) = 1 THEN ValNow(ps[1].path)
  ELSE LET vs == [i \in DOMAIN ps |-> IF ps[i].ref THEN ValNow(ps[i].path)[<<>>] ELSE Text(ps[i].text)]
       IN IF \E i \in DOMAIN ps : vs[i].t # "str" THEN Rooted(Failed) ELSE Rooted(Text(Concat([i \in DOMAIN ps |-> vs[i].v])))
Step == /\ pc = "go"
        /\ \E p \in RefLeaves(own) \ DOMAIN res :
             /\ Needs(own, p) \subseteq Settled
             /\ LET v == NewValue(p) IN
                  IF Ok(v) THEN res' = res @@ (p :> v) /\ pc' = pc
                  ELSE res' = res /\ pc' = "failed"
        /\ UNCHANGED <<own, ctx>>
Stuck == /\ pc = "go" /\ RefLeaves(own) \ DOMAIN res # {}
         /\ \A p \in RefLeaves(own) \ DOMAIN res : ~(Needs(own, p) \subseteq Settled)
         /\ pc' = "failed" /\ UNCHANGED <<own, ctx, res>>
Finish == /\ pc = "go" /\ RefLeaves(own) \subseteq DOMAIN res /\ pc' = "done" /\ UNCHANGED <<own, ctx, res>>
Next == Step \/ Stuck \/ Finish
Outcome == Interpolated(own, ctx, Env)
Correct ==
  /\ pc = "failed" => Outcome.failed
  /\ pc = "done" => /\ ~Outcome.failed
                    /\ \A p \in DOMAIN own : IsNs(own[p]) => Outcome.tree[p] = Ns
                    /\ \A p \in Leaves(own) : LET v == IF p \in DOMAIN res THEN res[p] ELSE Rooted(own[p])
                                              IN \A s \in DOMAIN v : Outcome.tree[p \o s] = v[s]
                    /\ DOMAIN Outcome.tree = {p \in DOMAIN own : IsNs(own[p])}
                          \cup UNION {{p \o s : s \in (IF p \in DOMAIN res THEN DOMAIN res[p] ELSE {<<>>})} : p \in Leaves(own)}
                    /\ IsTree(Outcome.tree)
                    \* nothing of the context or the environment gets in by itself
                    /\ \A p \in DOMAIN Outcome.tree : \E k \in 1..Len(p) : SubSeq(p, 1, k) \in DOMAIN own
\* the same paths are there in whatever order
Terminates == <>(pc # "go")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Visit == pc = "go" => (Cardinality(DOMAIN res) > 0 \/
           PrintT(ToJson([own |-> Entries(own), ctx |-> Entries(ctx), failed |-> LoadOne(own, ctx, Env).failed,
                          skip |-> Unpromised(own, ctx, Env)])))
NoStep == FALSE /\ UNCHANGED vars
-----------------------------------------------------------------------------
\* strings: own is unused; res holds the string under the root
Words == UNION {[1..n -> Letters] : n \in 0..MaxLen}
SInit == /\ own = Nothing /\ ctx = Nothing /\ pc = "string"
         /\ \E w \in Words : res = (<<>> :> Text(Concat(w)))
SLaws ==
  LET s == res[<<>>].v  ps == Parts(s) IN
  /\ Concat([i \in DOMAIN ps |-> ps[i].text]) = s
  /\ \A i \in DOMAIN ps : IF ps[i].ref THEN Len(ps[i].text) >= 3 /\ Ch(ps[i].text, 1) = "%" /\ Ch(ps[i].text, Len(ps[i].text)) = "%"
                                            /\ \A k \in 2..(Len(ps[i].text) - 1) : Ch(ps[i].text, k) \in WordChars
                          ELSE ps[i].text # "" /\ RefStarts(ps[i].text, 1) = {}
  /\ \A i \in DOMAIN ps : i > 1 => ps[i].ref \/ ps[i - 1].ref
  \* no reference begins before the first one found
  /\ RefStarts(s, 1) = {} <=> \A i \in DOMAIN ps : ~ps[i].ref
SVisit == LET ps == Parts(res[<<>>].v) IN
  PrintT(ToJson([s |-> res[<<>>].v, parts |-> [i \in DOMAIN ps |-> <<IF ps[i].ref THEN 1 ELSE 0, ps[i].text>>]]))
=============================================================================
