------------------------------- MODULE SpansMC ------------------------------
EXTENDS Spans, Json
CONSTANTS NegLo, Hi, MaxColl
Lo == 0 - NegLo
VARIABLES a, b, coll, pc
vars == <<a, b, coll, pc>>
Offsets == Lo..Hi
SpansU == {p \in Offsets \X Offsets : IsSpan(p)}
Init == a \in SpansU /\ b \in SpansU /\ coll = <<>> /\ pc = "pair"
\* collections grow from a's
Grow == /\ pc \in {"pair", "coll"} /\ a = b /\ Len(coll) < MaxColl
        /\ \E c \in SpansU : coll' = Append(coll, c)
        /\ pc' = "coll" /\ UNCHANGED <<a, b>>
OnlyOne == /\ a = b /\ a = (CHOOSE s \in SpansU : TRUE)
NextC == OnlyOne /\ Grow
Union2(q) == UNION {Cover(q[i]) : i \in DOMAIN q}
PairLaws ==
  /\ Cover(a) # {} /\ Cardinality(Cover(a)) = Length(a)
  /\ \A i \in (Lo - 1)..(Hi + 1) : ContainsOffset(a, i) <=> i \in Cover(a)
  /\ ContainsSpan(a, b) <=> Cover(b) \subseteq Cover(a)
  /\ Precedes(a, b) <=> \A i \in Cover(a), j \in Cover(b) : i < j
  /\ Follows(a, b) <=> Precedes(b, a)
  /\ Overlaps(a, b) <=> Cover(a) \cap Cover(b) # {}
  /\ Cardinality({x \in 1..3 : <<Precedes(a, b), Follows(a, b), Overlaps(a, b)>>[x]}) = 1
  /\ Meet(a, b) = Meet(b, a)
  /\ IF Meet(a, b) = <<>> THEN Cover(a) \cap Cover(b) = {} ELSE Cover(Meet(a, b)) = Cover(a) \cap Cover(b)
  /\ \A n \in -2..2 : Cover(Shift(a, n)) = {i + n : i \in Cover(a)} /\ Meet(Shift(a, n), Shift(b, n)) = (IF Overlaps(a, b) THEN Shift(Meet(a, b), n) ELSE <<>>)
  /\ Crosses(a, b) <=> (Cover(a) \cap Cover(b) # {} /\ Cover(a) \ Cover(b) # {} /\ Cover(b) \ Cover(a) # {})
CollLaws ==
  coll # <<>> =>
    LET e == Enclose(coll)  q == Sorted(coll) IN
    /\ \A i \in DOMAIN coll : ContainsSpan(e, coll[i])
    /\ \A c \in SpansU : (\A i \in DOMAIN coll : ContainsSpan(c, coll[i])) => ContainsSpan(c, e)
    /\ \A i, j \in DOMAIN q : i < j => q[i] = q[j] \/ Before(q[i], q[j])
    /\ \A c \in SpansU : Cardinality({i \in DOMAIN q : q[i] = c}) = Cardinality({i \in DOMAIN coll : coll[i] = c})
    \* contained spans come after the spans that contain them
    /\ \A i, j \in DOMAIN q : ContainsSpan(q[j], q[i]) /\ q[i] # q[j] => i > j
Inv == PairLaws /\ CollLaws
B(x) == IF x THEN 1 ELSE 0
Visit ==
  IF coll = <<>>
  THEN PrintT(ToJson([a |-> a, b |-> b, contains |-> B(ContainsSpan(a, b)), precedes |-> B(Precedes(a, b)), follows |-> B(Follows(a, b)),
                      overlaps |-> B(Overlaps(a, b)), meet |-> Meet(a, b), len |-> Length(a),
                      offs |-> [i \in 1..(Hi - Lo + 3) |-> B(ContainsOffset(a, Lo - 2 + i))]]))
  ELSE PrintT(ToJson([coll |-> coll, enclose |-> Enclose(coll), sorted |-> Sorted(coll)]))
=============================================================================
