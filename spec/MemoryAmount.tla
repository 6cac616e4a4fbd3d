---------------------------- MODULE MemoryAmount ----------------------------
(* Amounts of memory, written as texts: sequences of characters (strings of
   length one).  Numbers are kept as their digits, without leading zeros.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Units == ("K" :> "KILOBYTES") @@ ("k" :> "KILOBYTES") @@ ("M" :> "MEGABYTES") @@ ("m" :> "MEGABYTES")
         @@ ("G" :> "GIGABYTES") @@ ("g" :> "GIGABYTES") @@ ("T" :> "TERABYTES") @@ ("t" :> "TERABYTES")
RECURSIVE Number(_)
Number(q) == IF q = <<>> \/ q[1] # "0" THEN q ELSE Number(Tail(q))
AllDigits(q) == \A i \in DOMAIN q : q[i] \in Digit
\* d digits, s spaces, a unit and b letters B make up the text, or begin it
Form(q, d, s, b, whole) ==
  LET n == d + s + 1 + b IN
  /\ n <= Len(q) /\ (whole => n = Len(q))
  /\ AllDigits(SubSeq(q, 1, d))
  /\ s = 1 => q[d + 1] = " "
  /\ q[d + s + 1] \in DOMAIN Units
  /\ b = 1 => q[n] \in {"b", "B"}
Splits(q, whole) == {<<d, s, b>> \in (1..Len(q)) \X (0..1) \X (0..1) : Form(q, d, s, b, whole)}
None == [ok |-> FALSE, amount |-> <<>>, unit |-> ""]
Read(q, whole) ==
  LET ss == Splits(q, whole) IN
  IF ss = {} THEN None
  ELSE LET x == CHOOSE x \in ss : TRUE  n == Number(SubSeq(q, 1, x[1])) IN
       IF n = <<>> THEN None ELSE [ok |-> TRUE, amount |-> n, unit |-> Units[q[x[1] + x[2] + 1]]]
Parse(q) == Read(q, TRUE)
\* nothing is promised about texts which only begin like an amount
Vague(q) == Splits(q, TRUE) = {} /\ Splits(q, FALSE) # {}
UnitOf(q) == IF Len(q) = 1 /\ q[1] \in DOMAIN Units THEN Units[q[1]] ELSE ""
=============================================================================
