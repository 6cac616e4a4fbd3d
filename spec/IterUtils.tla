------------------------------ MODULE IterUtils -----------------------------
(* What the iterator utilities give for an input sequence, and how much of the
   input they may have taken when they have given their i-th element.
   Elements are numbers; 0 is None.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Windows(s, w, partial) ==
  [i \in 1..(IF partial THEN Len(s) ELSE Max2(0, Len(s) - w + 1)) |-> SubSeq(s, i, Min2(i + w - 1, Len(s)))]
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
IsNone(x) == x = 0
NonNone(s) == SelectSeq(s, LAMBDA x : x # 0)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
\* elements of the input needed before the i-th output can be known
NeedWindow(i, w) == i + w - 1
NeedDrop(i, n) == n + i
NeedNonNone(s, i) == CHOOSE j \in 1..Len(s) : s[j] # 0 /\ Cardinality({k \in 1..j : s[k] # 0}) = i
NeedOnly == 2
=============================================================================
