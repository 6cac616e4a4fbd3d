---------------------------- MODULE FileFormatsMC ---------------------------
EXTENDS FileFormats
CONSTANTS MaxLines
VARIABLES mp, ls
LinesM == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 3>>, <<1>>, <<1, 2, 3>>, <<>>}
LinesL == {<<>>, <<1>>, <<2>>, <<3>>, <<1, 3>>, <<3, 1>>, <<1, 2, 3>>, <<3, 1, 2>>}
Init == mp = <<>> /\ ls = <<>>
Next == /\ Len(mp) < MaxLines
        /\ \E l \in LinesM : mp' = Append(mp, l)
        /\ \E l \in LinesL : ls' = Append(ls, l)
Functional == WellFormed(mp) => \A p, q \in Meaning(mp) : p[1] = q[1] => p = q
LastWins == (WellFormed(mp) /\ mp # <<>>) => mp[Len(mp)] \in Meaning(mp)
NoInvention == WellFormed(mp) => Meaning(mp) \subseteq {mp[i] : i \in DOMAIN mp}
DistinctOnce == LET d == Distinct(ls, {}) IN
    /\ \A i, j \in DOMAIN d : d[i] = d[j] => i = j
    /\ {d[i] : i \in DOMAIN d} = {ls[i] : i \in DOMAIN ls} \ {<<>>}
StripIdem == \A i \in DOMAIN ls : Strip(Strip(ls[i])) = Strip(ls[i])
PathsClean == LET p == Paths(ls) IN \A i \in DOMAIN p : p[i] # <<>> /\ p[i][1] \notin {1, 2} /\ p[i][Len(p[i])] # 1
Inv == Functional /\ LastWins /\ NoInvention /\ DistinctOnce /\ StripIdem /\ PathsClean
=============================================================================
