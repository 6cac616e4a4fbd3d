----------------------------- MODULE MiscTextMC -----------------------------
(* The same for texts: lists of short strings with limits, and file names.   *)
EXTENDS MiscUtils, Json
CONSTANTS MaxLen, Chars
VARIABLES q, n
Seqs(S, k) == UNION {[1..j -> S] : j \in 0..k}
Init == q \in Seqs(Chars, MaxLen) /\ n \in 0..(MaxLen + 1)
Next == FALSE /\ UNCHANGED <<q, n>>
Laws == /\ (n >= Len(q) => Limited(q, n) = Limited(q, Len(q)))
        /\ (n < Len(q) => Limited(q, n) # Limited(q, Len(q)))
        /\ Len(Stripped(q)) <= Len(q) /\ Stripped(q) = SubSeq(q, 1, Len(Stripped(q)))
        /\ (Dots(q) = {}) = (Stripped(q) = q)
        \* one extension at a time
        /\ \A k \in 1..Len(q) : (q[k] = "." /\ \A j \in (k + 1)..Len(q) : q[j] # ".") => Stripped(q) = SubSeq(q, 1, k - 1)
        /\ (Dots(q) # {} => Cardinality(Dots(Stripped(q))) = Cardinality(Dots(q)) - 1)
Visit == PrintT(ToJson([q |-> q, n |-> n, limited |-> Limited(q, n), stripped |-> Stripped(q)]))
=============================================================================
