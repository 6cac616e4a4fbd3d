---------------------------- MODULE InterpSource ----------------------------
(* An interpreted view (possibly of an interpreted view ...) of a key-value
   source.  The underlying source is a partial function; value 0 is never used
   for a present key.  f(k, v) = v + 1000 + 100 k at every level, except that the
   outermost function gives a null (code Nul) or another false value (code Blank)
   for some keys, given by `blank`: that is still the key's value, not absence.
   `calls` is the log of calls of the interpretation functions in the last request: triples
   <<level, key, value>>.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys
VARIABLES src, level, blank, ans, calls
vars == <<src, level, blank, ans, calls>>
Nul == -6
Blank == -5
At(k, v, lv) == v + lv * (1000 + 100 * k)
View(k) == IF k \notin DOMAIN src THEN 0
           ELSE IF level > 0 /\ blank[k] # 0 THEN blank[k] ELSE At(k, src[k], level)
CallsFor(k) == [i \in 1..level |-> <<i, k, At(k, src[k], i - 1)>>]

Get(k) == /\ ans' = View(k)
          /\ calls' = IF k \in DOMAIN src THEN CallsFor(k) ELSE <<>>
          /\ UNCHANGED <<src, level, blank>>
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSet(S \ {m})
Listing == /\ ans' = SortSet(DOMAIN src) /\ calls' = <<>> /\ UNCHANGED <<src, level, blank>>
\* items accepted by the filter, each interpreted once (in whatever order the keys come: here sorted)
RECURSIVE Flat(_)
Flat(ks) == IF ks = <<>> THEN <<>> ELSE <<Head(ks), View(Head(ks))>> \o Flat(Tail(ks))
RECURSIVE AllCalls(_)
AllCalls(ks) == IF ks = <<>> THEN <<>> ELSE CallsFor(Head(ks)) \o AllCalls(Tail(ks))
\* a request during which interpreting key b (or filtering it) fails with the user's own error: the error is the outcome,
\* whatever kind of error it is - a failure is neither absence nor an item less
Raised == -8
GetFailing(k, b) == /\ ans' = IF k = b /\ k \in DOMAIN src /\ level > 0 THEN Raised ELSE View(k)
                    /\ calls' = <<>> /\ UNCHANGED <<src, level, blank>>
ItemsFailing(F, b) == /\ ans' = IF b \in DOMAIN src \cap F THEN <<Raised>> ELSE Flat(SortSet(DOMAIN src \cap F))
                      /\ calls' = <<>> /\ UNCHANGED <<src, level, blank>>
\* the underlying store is written anew: the view is of what is there now
Change(s) == src' = s /\ ans' = 0 /\ calls' = <<>> /\ UNCHANGED <<level, blank>>
Items(F) == LET ks == SortSet(DOMAIN src \cap F) IN
              ans' = Flat(ks) /\ calls' = AllCalls(ks) /\ UNCHANGED <<src, level, blank>>
=============================================================================
