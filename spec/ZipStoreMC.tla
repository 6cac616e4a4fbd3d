----------------------------- MODULE ZipStoreMC -----------------------------
(* Every history of Depth operations, printed with its expected results and
   observations; used to drive the real store.                              *)
EXTENDS ZipStore, Json
CONSTANT Depth
VARIABLE h
Obs == [k |-> file'.haslist, keys |-> file'.listed, ent |-> [x \in Keys |-> IF x \in DOMAIN file'.ent THEN file'.ent[x] ELSE 0],
        st |-> file'.st, res |-> res']
Log(op, k, v) == h' = Append(h, [op |-> op, a |-> k, v |-> v, o |-> Obs])
HInit == Init /\ h = <<>>
\* the put values are tied to the position, so that no two puts of a history look alike
V == 1 + (Len(h) % Cardinality(Vals))
HNext == /\ Len(h) < Depth
         /\ \/ Open(TRUE) /\ Log("open_ow", 0, 0)
            \/ Open(FALSE) /\ Log("open_app", 0, 0)
            \/ \E k \in Keys : Put(k, V) /\ Log("put", k, V)
            \/ \E k \in Keys : PutFail(k) /\ Log("fail", k, V)
            \/ Close /\ Log("close", 0, 0)
            \/ Close /\ Log("abort", 0, 0)
Visit == Len(h) = Depth => PrintT(ToJson([h |-> h]))
=============================================================================
