--------------------------- MODULE TextAtOffsetsMC --------------------------
EXTENDS TextAtOffsets, Json
CONSTANTS Chars, MaxLen
VARIABLES t, s, e
Init == t \in UNION {[1..n -> Chars] : n \in 0..MaxLen} /\ s \in 0..MaxLen /\ e \in 0..(MaxLen + 1)
Next == FALSE /\ UNCHANGED <<t, s, e>>
Laws == /\ InBounds(t, s, e) => (Len(Cut(t, s, e)) = e - s /\ \A i \in 1..(e - s) : Cut(t, s, e)[i] = t[s + i])
        /\ \A m \in 0..MaxLen : (InBounds(t, s, m) /\ InBounds(t, m, e)) => Cut(t, s, m) \o Cut(t, m, e) = Cut(t, s, e)
        /\ (InBounds(t, 0, Len(t)) => Cut(t, 0, Len(t)) = t)
Visit == PrintT(ToJson([t |-> t, s |-> s, e |-> e, ok |-> InBounds(t, s, e), cut |-> IF InBounds(t, s, e) THEN Cut(t, s, e) ELSE <<>>]))
=============================================================================
