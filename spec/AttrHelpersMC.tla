---------------------------- MODULE AttrHelpersMC ---------------------------
EXTENDS AttrHelpers, Json
CONSTANT Depth
VARIABLE h
Note(op, k, a, i, e) == h' = Append(h, [op |-> op, k |-> k, a |-> a, i |-> i, e |-> e, n |-> Len(objs'), objs |-> objs'])
HInit == Init /\ h = <<>>
HNext == /\ Len(h) < Depth
         /\ \/ \E k \in Kinds : \E a \in Args(k) : Make(k, a) /\ Note("make", k, a, 0, 0)
            \/ \E e \in Elems : \/ (\E i \in DOMAIN h : h[i].op = "make" /\ h[i].a = "mutable") /\ Feed(e) /\ Note("feed", "", "", 0, e)
                                \/ \E i \in DOMAIN objs : Add(i, e) /\ Note("add", "", "", i, e)
Visit == Len(h) = Depth => PrintT(ToJson([h |-> h]))
=============================================================================
