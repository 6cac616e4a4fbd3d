----------------------------- MODULE DirStoreMC -----------------------------
EXTENDS DirStore, Json
CONSTANT Depth
VARIABLE h
Obs == [has |-> index'.has, keys |-> index'.keys, res |-> res',
        seen |-> [k \in Keys |-> Seen(k)'], onDisk |-> DOMAIN files', unsure |-> {k \in DOMAIN files' : files'[k] = 0}]
Log(op, k, v) == h' = Append(h, [op |-> op, a |-> k, v |-> v, o |-> Obs])
HInit == Init /\ h = <<>>
V == 1 + (Len(h) % Cardinality(Vals))
HNext == /\ Len(h) < Depth
         /\ \/ Open /\ Log("open", 0, 0)
            \/ Close /\ Log("close", 0, 0)
            \/ Close /\ Log("abort", 0, 0)
            \/ Wipe /\ (DOMAIN files # {} \/ index.has) /\ Log("wipe", 0, 0)
            \/ \E k \in Keys : Put(k, V) /\ Log("put", k, V)
            \/ \E k \in Keys : PutFail(k) /\ Log("fail", k, V)
            \/ \E k \in Keys : Edit(k, V) /\ Log("edit", k, V)
            \/ \E k \in Keys : Remove(k) /\ Log("remove", k, V)
Visit == Len(h) = Depth => PrintT(ToJson([h |-> h]))
=============================================================================
