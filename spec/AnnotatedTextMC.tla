--------------------------- MODULE AnnotatedTextMC --------------------------
(* A formatter which puts the tags out one by one: at each place end tags first
   (innermost element first), then start tags (longest first).  With the order
   of annotations on one span chosen at their start and kept (a stack), its
   output has the properties for every collection of annotations.            *)
EXTENDS AnnotatedText, Json
CONSTANTS MaxText, MaxOff, MaxWs, MaxAnns, Export
VARIABLES n, ws, anns, pos, started, open, out, pc
vars == <<n, ws, anns, pos, started, open, out, pc>>
SpansU == {p \in (0..MaxOff) \X (0..MaxOff) : IsSpan(p)}
C == Clipped(anns, ws, n)
Init == /\ n \in 0..MaxText /\ ws \in 0..MaxWs /\ anns = <<>> /\ pos = 0 /\ started = {} /\ open = <<>> /\ out = <<>> /\ pc = "choose"
Choose == /\ pc = "choose" /\ Len(anns) < MaxAnns
          /\ \E s \in SpansU : anns' = Append(anns, <<1 + (Len(anns) % 2), 1, s[1], s[2]>>)
          /\ UNCHANGED <<n, ws, pos, started, open, out, pc>>
Go == pc = "choose" /\ pc' = "run" /\ UNCHANGED <<n, ws, anns, pos, started, open, out>>
Ending == {i \in DOMAIN open : C[open[i]][4] = pos}
Starting == {i \in DOMAIN C : C[i][3] = pos /\ i \notin started}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Step == /\ pc = "run"
        /\ IF Ending # {} THEN LET i == MinOf(Ending) IN
                /\ out' = Append(out, <<2, C[open[i]][1], 0>>) /\ open' = Without(open, i) /\ UNCHANGED <<pos, started, pc>>
           ELSE IF Starting # {} THEN \E i \in {k \in Starting : \A j \in Starting : C[j][4] <= C[k][4]} :
                /\ out' = Append(out, <<1, C[i][1], C[i][2]>>) /\ open' = <<i>> \o open
                /\ started' = started \cup {i} /\ UNCHANGED <<pos, pc>>
           ELSE IF pos < n THEN out' = Append(out, <<0, pos + 1, 0>>) /\ pos' = pos + 1 /\ UNCHANGED <<started, open, pc>>
           ELSE pc' = "end" /\ UNCHANGED <<pos, started, open, out>>
        /\ UNCHANGED <<n, ws, anns>>
Next == Choose \/ Go \/ Step
Inv == pc = "end" => /\ Chars(out) = [i \in 1..n |-> i]
                     /\ TagsRight(out, C)
                     /\ NestedRight(out, C)
ChooseOnly == Choose
Visit == ~Export \/ PrintT(ToJson([n |-> n, ws |-> ws, anns |-> [i \in DOMAIN anns |-> Sp(anns[i])], crossing |-> Crossing(C)]))
=============================================================================
