------------------------------ MODULE LoggingMC -----------------------------
(* Histories for replay: each configuration and what is printed then at each level. *)
EXTENDS Logging, Json
CONSTANT Depth
VARIABLE h
Few == {q \in Requests : (q.flevel = 20 \/ (q.file = "there" /\ q.flevel \in {40, 10})) /\ (q.file = "no" \/ q.level \in {"", "ERROR", "LOUD"})
                         /\ (q.show => q.file = "no" /\ q.level \in {"", "DEBUG", "WARN"})}
HInit == Init /\ h = <<>>
HNext == /\ Len(h) < Depth
         /\ \E q \in Few : /\ Configure(q)
                           /\ h' = Append(h, [q |-> q, res |-> res', root |-> root', seen |-> seen',
                                              prints |-> [k \in 1..5 |-> Printed(root', consoles', 10 * k)], fresh |-> consoles' = <<>>])
Visit == Len(h) = Depth => PrintT(ToJson([h |-> h]))
=============================================================================
