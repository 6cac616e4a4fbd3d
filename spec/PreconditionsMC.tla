--------------------------- MODULE PreconditionsMC --------------------------
(* Every hierarchy of N classes (with more than one base), every class info up
   to two levels, every value.  Class 0 is object, N+1 the class of None.    *)
EXTENDS Preconditions, Json
CONSTANTS N
VARIABLES bases, info, x
vars == <<bases, info, x>>
All == 0..(N + 1)
RECURSIVE Anc(_, _)
Anc(b, c) == {c, 0} \cup (IF c \in 1..N THEN UNION {Anc(b, d) : d \in b[c]} ELSE {})
anc == [c \in All |-> Anc(bases, c)]
C(c) == [k |-> "class", c |-> c, of |-> <<>>]
T(q) == [k |-> "tuple", c |-> 0, of |-> q]
Flat == {T(<<>>)} \cup {T(<<C(a)>>) : a \in All} \cup {T(<<C(a), C(b)>>) : a, b \in All}
Infos == {C(a) : a \in All} \cup Flat \cup {T(<<C(a), T(<<C(b), C(c)>>)>>) : a, b, c \in 1..N} \cup {T(<<T(<<T(<<C(a)>>)>>), T(<<>>)>>) : a \in All}
Values == {[none |-> FALSE, truthy |-> t, cls |-> c] : t \in BOOLEAN, c \in 1..N} \cup {[none |-> TRUE, truthy |-> FALSE, cls |-> N + 1]}
Init == /\ bases \in [1..N -> SUBSET (1..N)] /\ (\A c \in 1..N : bases[c] \subseteq 1..(c - 1))
        /\ info \in Infos /\ x \in Values
Next == FALSE /\ UNCHANGED vars
P(op) == Passes(anc, op, <<x>>, info)
RECURSIVE Any1(_, _)
Any1(v, f) == IF f.k = "class" THEN f.c \in anc[v.cls] ELSE \E i \in DOMAIN f.of : Any1(v, f.of[i])
Laws == /\ P("opt_isinstance") <=> (x.none \/ P("isinstance"))
        /\ P("isinstance") <=> P("issubclass")
        /\ P("isinstance") <=> Any1(x, info)
        /\ P("args_none") <=> ~P("args_not_none")
        /\ P("not_none") <=> P("args_not_none")
        /\ Passes(anc, "all_isinstance", <<>>, info)
        /\ P("all_isinstance") <=> P("isinstance")
        /\ Sub(anc, x.cls, C(0))
        /\ ~Sub(anc, x.cls, T(<<>>))
        /\ (P("isinstance") => Sub(anc, x.cls, T(<<info, C(1)>>)))
        /\ \A c \in 1..N : (x.cls \in 1..N /\ c \in bases[x.cls]) => Sub(anc, x.cls, C(c))
        \* transitivity
        /\ \A c, d \in All : (c \in anc[x.cls] /\ d \in anc[c]) => d \in anc[x.cls]
        /\ (x.none => ~x.truthy)
Visit == PrintT(ToJson([bases |-> bases, info |-> info, x |-> x, inst |-> P("isinstance"), opt |-> P("opt_isinstance")]))
=============================================================================
