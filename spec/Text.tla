-------------------------------- MODULE Text --------------------------------
(* Texts as sequences of character codes; 10 is the line feed.  What text
   sources give for them, whole, by lines, or in pieces.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LF == 10
\* the lines of a text, without their line feeds; a final line feed starts no further line
RECURSIVE LinesFrom(_, _)
LinesFrom(s, cur) ==
  IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF Head(s) = LF THEN <<cur>> \o LinesFrom(Tail(s), <<>>)
  ELSE LinesFrom(Tail(s), Append(cur, Head(s)))
Lines(s) == LinesFrom(s, <<>>)
IsEmpty(s) == s = <<>>
\* at most n elements (all of them for n < 0)
Prefix(s, n) == IF n < 0 \/ n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
=============================================================================
