--------------------------- MODULE MemoryAmountMC ---------------------------
(* A reader which takes a character at a time, against the definition, on every
   text of up to MaxLen characters of Chars.                                 *)
EXTENDS MemoryAmount, Json
CONSTANTS Chars, MaxLen
VARIABLES text, st, num, unit
vars == <<text, st, num, unit>>
Init == text = <<>> /\ st = "digits0" /\ num = <<>> /\ unit = ""
Step(c) ==
  IF st \in {"digits0", "digits"} /\ c \in Digit
  THEN st' = "digits" /\ num' = (IF num = <<>> /\ c = "0" THEN <<>> ELSE Append(num, c)) /\ UNCHANGED unit
  ELSE IF st = "digits" /\ c = " " THEN st' = "space" /\ UNCHANGED <<num, unit>>
  ELSE IF st \in {"digits", "space"} /\ c \in DOMAIN Units THEN st' = "unit" /\ unit' = Units[c] /\ UNCHANGED num
  ELSE IF st = "unit" /\ c \in {"b", "B"} THEN st' = "b" /\ UNCHANGED <<num, unit>>
  ELSE IF st \in {"unit", "b", "more"} THEN st' = "more" /\ UNCHANGED <<num, unit>>
  ELSE st' = "bad" /\ UNCHANGED <<num, unit>>
Next == Len(text) < MaxLen /\ \E c \in Chars : text' = Append(text, c) /\ Step(c)
Laws == /\ (st \in {"unit", "b"} /\ num # <<>>) => Parse(text) = [ok |-> TRUE, amount |-> num, unit |-> unit]
        /\ ~(st \in {"unit", "b"} /\ num # <<>>) => ~Parse(text).ok
        /\ (st = "more") <=> Vague(text)
        /\ Cardinality(Splits(text, TRUE)) <= 1
        /\ \A c \in Chars : (Parse(text).ok /\ c \in Digit) => Parse(<<c>> \o text).unit = Parse(text).unit
        /\ (Parse(text).ok => Parse(<<"0">> \o text) = Parse(text))
Visit == (st = "bad" /\ Len(text) > 4) \/ PrintT(ToJson([text |-> text, ok |-> Parse(text).ok, amount |-> Parse(text).amount, unit |-> Parse(text).unit, vague |-> Vague(text), u |-> UnitOf(text)]))
=============================================================================
