------------------------------ MODULE Judging -------------------------------
(* Total verdicts over records of the real code.  Every record is judged; each
   rejected one is named with the clause it breaks and what was expected.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECORDS)
Reject(i, clause, expected) == PrintT(ToJson([bad |-> i, clause |-> clause, expected |-> expected]))
\* (a set filter, so that TLC evaluates J once per record without nesting)
JudgeAll(J(_)) == /\ {i \in 1..Len(Recs) : ~J(i)} = {}
                  /\ PrintT(ToJson([judged |-> Len(Recs)]))
=============================================================================
