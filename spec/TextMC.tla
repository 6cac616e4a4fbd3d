------------------------------- MODULE TextMC -------------------------------
EXTENDS Text, Json
CONSTANTS Alphabet, MaxLen, Export
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
RECURSIVE WithLF(_)
WithLF(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o <<LF>> \o WithLF(Tail(ls))
RECURSIVE CountLF(_)
CountLF(t) == IF t = <<>> THEN 0 ELSE (IF Head(t) = LF THEN 1 ELSE 0) + CountLF(Tail(t))
\* lines carry everything but the line feeds
LinesLoseless == LET l == Lines(s) IN WithLF(l) = s \/ WithLF(l) = Append(s, LF)
NoLFInside == LET l == Lines(s) IN \A i \in DOMAIN l : \A j \in DOMAIN l[i] : l[i][j] # LF
Count == Len(Lines(s)) = CountLF(s) + (IF s = <<>> \/ s[Len(s)] = LF THEN 0 ELSE 1)
EmptyNoLines == IsEmpty(s) <=> Lines(s) = <<>>
PrefixSplits == \A n \in 0..Len(s) : Prefix(s, n) \o SubSeq(s, n + 1, Len(s)) = s
Inv == LinesLoseless /\ NoLFInside /\ Count /\ EmptyNoLines /\ PrefixSplits
Visit == Export => PrintT(ToJson([s |-> s, lines |-> Lines(s)]))
=============================================================================
