---------------------------- MODULE TextAtOffsets ---------------------------
(* The text between two offsets of a file: characters, the end left out.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
InBounds(t, s, e) == 0 <= s /\ s < Len(t) /\ s < e /\ e <= Len(t)
Cut(t, s, e) == SubSeq(t, s + 1, e)
=============================================================================
