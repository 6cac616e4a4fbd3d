--------------------------- MODULE CheckpointsMC ----------------------------
(* Histories for replay: one directory, names, and after each step the answers
   to every question.                                                        *)
EXTENDS Checkpoints, Json
CONSTANT Depth
VARIABLE h
Log(op, d, n) == h' = Append(h, [op |-> op, d |-> d, n |-> n, saved |-> saved', made |-> made'])
HInit == Init /\ h = <<>>
HNext == /\ Len(h) < Depth
         /\ \E d \in Dirs :
              \/ Handle(d) /\ Log("handle", d, 0)
              \/ Reset(d) /\ Log("reset", d, 0)
              \/ Bad(d) /\ Log("bad", d, 0)
              \/ \E n \in Names : Set(d, n) /\ Log("set", d, n)
Visit == Len(h) = Depth => PrintT(ToJson([h |-> h]))
=============================================================================
