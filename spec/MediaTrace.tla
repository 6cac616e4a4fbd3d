----------------------------- MODULE MediaTrace -----------------------------
(* Histories of writing through sinks and reading through sources.  A medium is
   a slot: nothing yet, or a sequence of codes (characters or bytes).
   Ops:  write a s      one write through the sink: replaces what was there
         parts a ps     one stream, several writes: their concatenation
         fail a ps      a stream abandoned by an error: the slot's content is
                        whatever it is (no promise) until the next write
         unfit a        a write of text which cannot be encoded
         read a how n   a reader's answer
         files n        n files are there which no medium stands for             *)
EXTENDS Text, Json, IOUtils
CONSTANT Slots
VARIABLES med, l, dead
Recs == ndJsonDeserialize(IOEnv.RECORDS)
Nothing == [st |-> "none", s |-> <<>>]
Full(x) == [st |-> "full", s |-> x]
\* bytes which are no text in the encoding of the medium
Spoiled == [st |-> "spoiled", s |-> <<>>]
Unsure == [st |-> "unsure", s |-> <<>>]
\* a null sink keeps nothing
After(e) == IF e.null THEN med ELSE
  CASE e.op = "write" -> [med EXCEPT ![e.a] = Full(e.s)]
    [] e.op = "parts" -> [med EXCEPT ![e.a] = Full(Concat(e.ps))]
    [] e.op \in {"fail", "unfit"} -> [med EXCEPT ![e.a] = Unsure]
    [] OTHER -> med
Answer(m, e) ==
  CASE e.how = "all" -> m.s
    [] e.how = "lines" -> Lines(m.s)
    [] e.how = "stream" -> m.s
    [] e.how = "empty" -> IF IsEmpty(m.s) THEN <<1>> ELSE <<0>>
    [] e.how = "prefix" -> Prefix(m.s, e.n)
Wrong(e) ==
  IF e.op = "files" THEN (IF e.n # 0 THEN "something else is left behind" ELSE "")
  ELSE IF e.op = "unfit" THEN (IF e.res = "ok" THEN "text which cannot be encoded was written" ELSE "")
  ELSE IF e.op # "read" THEN (IF e.res # "ok" /\ e.op # "fail" THEN "writing failed" ELSE "")
  ELSE LET m == med[e.a] IN
    IF m.st = "unsure" THEN ""
    ELSE IF m.st = "none" THEN (IF e.res = "ok" THEN "reading what was never written" ELSE "")
    ELSE IF m.st = "spoiled" THEN (IF e.res = "ok" /\ e.how \in {"all", "lines", "stream"} THEN "bytes which are no text were read as text" ELSE "")
    ELSE IF e.res # "ok" THEN "reading failed"
    ELSE IF e.ans # Answer(m, e) THEN e.how
    ELSE ""
TInit == med = [a \in Slots |-> Nothing] /\ l = 1 /\ dead = FALSE
Step == /\ l <= Len(Recs)
        /\ l' = l + 1
        /\ LET e == Recs[l] IN
             IF e.op = "new"
             THEN /\ med' = [a \in Slots |-> CASE e.has[a] = 1 -> Full(e.preset[a]) [] e.has[a] = 2 -> Spoiled [] OTHER -> Nothing]
                  /\ dead' = FALSE
             ELSE IF dead THEN UNCHANGED <<med, dead>>
             ELSE /\ med' = After(e)
                  /\ LET w == Wrong(e) IN
                       /\ dead' = (w # "")
                       /\ w = "" \/ PrintT(ToJson([bad |-> l, clause |-> w, expected |-> med]))
Fin == /\ l = Len(Recs) + 1
       /\ PrintT(ToJson([judged |-> Len(Recs)]))
       /\ l' = l + 1 /\ UNCHANGED <<med, dead>>
TNext == Step \/ Fin
=============================================================================
