----------------------------- MODULE FileFormats ----------------------------
(* The little file formats.
   A doc-id-to-file map file is a sequence of lines, each a sequence of fields;
   it is well formed when every line has exactly two.  Its meaning is the
   function given by its lines, the later of two lines for one id winning.
   In line files, a line is a sequence of letters: 1 white space, 2 '#', others. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
WellFormed(ls) == \A i \in DOMAIN ls : Len(ls[i]) = 2
Last(ls, id) == CHOOSE i \in DOMAIN ls : ls[i][1] = id /\ \A j \in DOMAIN ls : ls[j][1] = id => j <= i
\* values 1..6 are absolute paths, 7..10 relative ones, 17..20 those resolved
Resolve(p, how) == IF how = "paramrel" /\ p > 6 THEN p + 10 ELSE p
ResolvedLines(ls, how) == [i \in DOMAIN ls |-> <<ls[i][1], Resolve(ls[i][2], how)>>]
Ids(ls) == {ls[i][1] : i \in DOMAIN ls}
Meaning(ls) == {<<id, ls[Last(ls, id)][2]>> : id \in Ids(ls)}
\* the distinct non-empty lines in order of first appearance
RECURSIVE Distinct(_, _)
Distinct(ls, seen) == IF ls = <<>> THEN <<>>
                      ELSE IF Head(ls) = <<>> \/ Head(ls) \in seen THEN Distinct(Tail(ls), seen)
                      ELSE <<Head(ls)>> \o Distinct(Tail(ls), seen \cup {Head(ls)})
RECURSIVE LStrip(_)
LStrip(s) == IF s # <<>> /\ Head(s) = 1 THEN LStrip(Tail(s)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # <<>> /\ s[Len(s)] = 1 THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(s))
\* stripped lines, without blank lines and comments, duplicates kept
RECURSIVE Paths(_)
Paths(ls) == IF ls = <<>> THEN <<>>
             ELSE LET s == Strip(Head(ls)) IN
                  (IF s = <<>> \/ s[1] = 2 THEN <<>> ELSE <<s>>) \o Paths(Tail(ls))
\* paths listed among the parameters themselves: there a '#' starts no comment
RECURSIVE Items(_)
Items(ls) == IF ls = <<>> THEN <<>>
             ELSE LET s == Strip(Head(ls)) IN (IF s = <<>> THEN <<>> ELSE <<s>>) \o Items(Tail(ls))
=============================================================================
