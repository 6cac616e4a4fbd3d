--------------------------- MODULE LinearSourceMC ---------------------------
(* Laws of the definition, over every small archive. *)
EXTENDS LinearSource
CONSTANT Len3
VARIABLE ms
Names == {1, 2}
KeysS == {1, 2}
Members == {<<k, n, 0>> : k \in {1, 2}, n \in Names}
Init == ms = <<>>
Next == Len(ms) < Len3 /\ \E m \in Members : ms' = Append(ms, [m EXCEPT ![3] = Len(ms) + 1])
Fns == [Names -> {0} \cup KeysS]
\* filtering by key after the fact is the same as filtering during iteration, so is filtering by name
RECURSIVE Keep(_, _)
Keep(its, ks) == IF its = <<>> THEN <<>> ELSE (IF Head(its)[1] \in ks THEN <<Head(its)>> ELSE <<>>) \o Keep(Tail(its), ks)
KeyFilterCommutes == \A f \in Fns, ns \in SUBSET Names, ks \in SUBSET KeysS :
    Items(ms, ns, f, ks) = Keep(Items(ms, ns, f, KeysS), ks)
NameFilterAsKeyFn == \A f \in Fns, ns \in SUBSET Names :
    Items(ms, ns, f, KeysS) = Items(ms, Names, [n \in Names |-> IF n \in ns THEN f[n] ELSE 0], KeysS)
Ordered == \A f \in Fns : LET it == Items(ms, Names, f, KeysS) IN \A i, j \in DOMAIN it : i < j => it[i][2] < it[j][2]
Complete == LET it == Items(ms, Names, [n \in Names |-> n], KeysS) IN
    {it[i][2] : i \in DOMAIN it} = {ms[i][3] : i \in {j \in DOMAIN ms : ms[j][1] = 1}}
\* a failure takes nothing away from, and adds nothing to, what came before it
FailuresCut == \A f \in Fns, ns \in SUBSET Names, ks \in SUBSET KeysS, who \in 1..4, b \in 1..2 :
    LET bs == Before(ms, ns, f, ks, <<who, b>>)
        its == Items(bs, ns, f, ks)
        all == Items(ms, ns, f, ks)
    IN /\ its = SubSeq(all, 1, Len(its))
       /\ (FailingMembers(ms, ns, f, ks, <<who, b>>) = {} => its = all)
       /\ (who = 4 => \A i \in DOMAIN its : its[i][1] # b)
       /\ (who = 4 /\ its = all => \A i \in DOMAIN all : all[i][1] # b)
Inv == FailuresCut /\ KeyFilterCommutes /\ NameFilterAsKeyFn /\ Ordered /\ Complete
=============================================================================
