--------------------------- MODULE InterpSourceMC ---------------------------
EXTENDS InterpSource
Init == /\ \E D \in SUBSET Keys : src \in [D -> 1..2]
        /\ blank \in [Keys -> {0, Nul, Blank}] /\ level \in 0..2 /\ ans = 0 /\ calls = <<>>
Next == \/ \E k \in Keys : Get(k) \/ Listing
        \/ \E F \in SUBSET Keys : Items(F) \/ \E b \in Keys : ItemsFailing(F, b)
        \/ \E k, b \in Keys : GetFailing(k, b)
        \/ \E D \in SUBSET Keys : \E s \in [D -> 1..2] : Change(s)
Spec == Init /\ [][Next]_vars
\* asking changes nothing
SourceUntouched == [][UNCHANGED <<src, level, blank>> \/ \E D \in SUBSET Keys : \E s \in [D -> 1..2] : Change(s)]_vars
\* the view of a view is the view of the composed function, and absent keys stay absent
Compose == \A k \in Keys : (level = 0 \/ blank[k] = 0) =>
             View(k) = IF k \in DOMAIN src THEN src[k] + level * (1000 + 100 * k) ELSE 0
PresentIsNotAbsent == \A k \in Keys : (View(k) = 0) <=> (k \notin DOMAIN src)
OncePerItem == \A i, j \in DOMAIN calls : calls[i] = calls[j] => i = j
=============================================================================
