---------------------------- MODULE IterUtilsMC -----------------------------
(* A machine which takes input elements one at a time through a bounded queue,
   for every input and window size, against the definitions; with Export, the
   cases themselves for replay.                                              *)
EXTENDS IterUtils, Json
CONSTANTS Elems, MaxLen, MaxW, Export
VARIABLES s, w, partial, pos, win, out, pc
vars == <<s, w, partial, pos, win, out, pc>>
Seqs == UNION {[1..n -> Elems] : n \in 0..MaxLen}
Init == s \in Seqs /\ w \in 1..MaxW /\ partial \in BOOLEAN /\ pos = 0 /\ win = <<>> /\ out = <<>> /\ pc = "fill"
Room(q) == IF Len(q) > w THEN Tail(q) ELSE q
\* filling: take until the queue is full or the input ends
Fill == /\ pc = "fill"
        /\ IF Len(win) < w /\ pos < Len(s) THEN pos' = pos + 1 /\ win' = Append(win, s[pos + 1]) /\ UNCHANGED <<out, pc>>
           ELSE IF Len(win) = w THEN out' = Append(out, win) /\ pc' = "slide" /\ UNCHANGED <<pos, win>>
           ELSE IF win # <<>> /\ partial THEN out' = Append(out, win) /\ pc' = "drain" /\ UNCHANGED <<pos, win>>
           ELSE pc' = "done" /\ UNCHANGED <<pos, win, out>>
        /\ UNCHANGED <<s, w, partial>>
Slide == /\ pc = "slide"
         /\ IF pos < Len(s) THEN /\ pos' = pos + 1 /\ win' = Room(Append(win, s[pos + 1]))
                                 /\ out' = Append(out, win') /\ UNCHANGED pc
            ELSE pc' = (IF partial THEN "drain" ELSE "done") /\ UNCHANGED <<pos, win, out>>
         /\ UNCHANGED <<s, w, partial>>
Drain == /\ pc = "drain"
         /\ win' = Tail(win)
         /\ IF win' # <<>> THEN out' = Append(out, win') /\ UNCHANGED pc ELSE pc' = "done" /\ UNCHANGED out
         /\ UNCHANGED <<s, w, partial, pos>>
Next == Fill \/ Slide \/ Drain
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
IsPrefix2(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Correct == IsPrefix2(out, Windows(s, w, partial)) /\ (pc = "done" => out = Windows(s, w, partial))
Lazy == pos <= NeedWindow(Len(out) + 1, w)
JustEnough == (out # <<>> /\ pc \in {"fill", "slide"}) => pos = NeedWindow(Len(out), w)
Terminates == <>(pc = "done")
\* laws of the definitions
Laws == /\ \A n \in 0..MaxW : Len(Drop(s, n)) = Max2(0, Len(s) - n) /\ \A m \in 0..MaxW : Drop(Drop(s, n), m) = Drop(s, n + m)
        /\ Flatten([i \in 1..Len(Windows(s, 1, partial)) |-> Windows(s, 1, partial)[i]]) = s
        /\ IsPrefix2(Windows(s, w, FALSE), Windows(s, w, TRUE))
        /\ \A i \in 1..Len(NonNone(s)) : LET j == NeedNonNone(s, i) IN s[j] = NonNone(s)[i]
Visit == pos = 0 /\ pc = "fill" =>
   PrintT(ToJson([s |-> s, w |-> w, partial |-> partial, windows |-> Windows(s, w, partial),
                  drops |-> [n \in 1..(MaxW + 1) |-> Drop(s, n - 1)], nonnone |-> NonNone(s), only |-> Len(s) = 1]))
ExportNext == FALSE /\ UNCHANGED vars
=============================================================================
