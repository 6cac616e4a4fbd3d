----------------------------- MODULE SpanIndexMC ----------------------------
EXTENDS SpanIndex, Json
CONSTANTS Hi, MaxItems, Export
VARIABLE items
SpansU == {p \in (0..Hi) \X (0..Hi) : IsSpan(p)}
Init == items = <<>>
Next == Len(items) < MaxItems /\ \E s \in SpansU : items' = Append(items, <<s[1], s[2], 1 + (Len(items) % 2)>>)
Laws == \A q \in SpansU :
   /\ Exact(items, q) = Contained(items, q) \cap Containing(items, q)
   /\ Contained(items, q) \cup Containing(items, q) \subseteq Overlapping(items, q)
   /\ Disjoint(items) => Cardinality(Containing(items, q)) <= 1 /\ Cardinality(Exact(items, q)) <= 1
   \* what overlaps is what contains some single offset of the query
   /\ Overlapping(items, q) = UNION {Containing(items, <<i, i + 1>>) : i \in Cover(q)}
Visit == ~Export \/ PrintT(ToJson([items |-> items, disjoint |-> Disjoint(items),
   answers |-> {[q |-> q, e |-> Exact(items, q), o |-> Overlapping(items, q), d |-> Contained(items, q), g |-> Containing(items, q)] : q \in SpansU}]))
=============================================================================
