----------------------------- MODULE MiscUtilsMC ----------------------------
EXTENDS MiscUtils, Json
CONSTANTS MaxTerms
VARIABLES ms, ts, bound, asked
vars == <<ms, ts, bound, asked>>
W == (<<"p">> :> 1) @@ (<<"p", "q">> :> 2) @@ (<<"p", "q", "r">> :> 4) @@ (<<"p", "s">> :> 8) @@ (<<"u">> :> 16)
Mods == DOMAIN W \cup {<<"z">>, <<"p", "z">>}
Terms == {[k |-> "name", p |-> <<n>>] : n \in {"x", "y"}} \cup {[k |-> "mod", p |-> m] : m \in DOMAIN W}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
ctx == [n \in bound |-> IF n = "x" THEN 32 ELSE 64]
Init == ms \in Seqs(Mods, 2) /\ ts \in (Seqs(Terms, MaxTerms) \ {<<>>}) /\ bound \in SUBSET {"x", "y"} /\ asked \in BOOLEAN
Next == FALSE /\ UNCHANGED vars
E(m, t) == Evaluate(W, ctx, m, t, TRUE)
Laws == LET o == E(ms, ts) IN
  \* the order and repetition of modules do not matter
  /\ Len(ms) = 2 => E(<<ms[2], ms[1]>>, ts) = o /\ E(ms \o ms, ts) = o
  \* more modules never take anything away
  /\ (o.res = "ok") => \A m \in DOMAIN W : E(Append(ms, m), ts) = o
  \* parents come along
  /\ \A t \in {ts[i] : i \in DOMAIN ts} : (o.res = "ok" /\ t.k = "mod" /\ Len(t.p) > 1) => E(ms, <<[k |-> "mod", p |-> SubSeq(t.p, 1, Len(t.p) - 1)]>>).res = "ok"
  /\ (o.res = "ok" /\ Len(ts) = 2) => o.val = E(ms, <<ts[1]>>).val + E(ms, <<ts[2]>>).val
  /\ Evaluate(W, ctx, ms, ts, FALSE).res # "ok"
Visit == PrintT(ToJson([ms |-> ms, ts |-> ts, bound |-> bound, asked |-> asked, want |-> Evaluate(W, ctx, ms, ts, asked)]))
=============================================================================
