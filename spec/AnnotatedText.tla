---------------------------- MODULE AnnotatedText ---------------------------
(* Marked-up text as a sequence of tokens: <<0, c, 0>> a character, <<1, l, t>>
   the start tag of label l with attributes t, <<2, l, 0>> an end tag of label l.
   The text occupies offsets ws+1-1 .. of a larger one: its i-th character has
   offset ws + i - 1.  Annotations: <<label, attributes, start, end>>.          *)
EXTENDS Spans
Win(ws, n) == <<ws, ws + n>>
Sp(a) == <<a[3], a[4]>>
\* annotations within the window, clipped, relative to the text
RECURSIVE Clipped(_, _, _)
Clipped(anns, ws, n) ==
  IF anns = <<>> THEN <<>>
  ELSE LET a == Head(anns)  m == IF n = 0 THEN <<>> ELSE Meet(Sp(a), Win(ws, n)) IN
       (IF m = <<>> THEN <<>> ELSE << <<a[1], a[2], m[1] - ws, m[2] - ws>> >>) \o Clipped(Tail(anns), ws, n)
Chars(out) == LET q == SelectSeq(out, LAMBDA t : t[1] = 0) IN [i \in DOMAIN q |-> q[i][2]]
\* how many characters precede the i-th token
CountTo(out, i) == Cardinality({j \in 1..(i - 1) : out[j][1] = 0})
StartsAt(out, l, t, o) == Cardinality({i \in DOMAIN out : out[i] = <<1, l, t>> /\ CountTo(out, i) = o})
EndsAt(out, l, o) == Cardinality({i \in DOMAIN out : out[i] = <<2, l, 0>> /\ CountTo(out, i) = o})
\* every annotation has its start tag before its first character and its end tag after its last; no other tags
TagsRight(out, c) ==
  /\ \A i \in DOMAIN c : StartsAt(out, c[i][1], c[i][2], c[i][3])
        = Cardinality({j \in DOMAIN c : c[j][1] = c[i][1] /\ c[j][2] = c[i][2] /\ c[j][3] = c[i][3]})
  /\ \A i \in DOMAIN c : EndsAt(out, c[i][1], c[i][4]) = Cardinality({j \in DOMAIN c : c[j][1] = c[i][1] /\ c[j][4] = c[i][4]})
  /\ Cardinality({i \in DOMAIN out : out[i][1] = 1}) = Len(c)
  /\ Cardinality({i \in DOMAIN out : out[i][1] = 2}) = Len(c)
\* reading the markup as an HTML reader would: elements <<label, attributes, start, end>>; <<>> in the result if tags cross
RECURSIVE Parse(_, _, _, _)
Parse(out, pos, stack, els) ==
  IF out = <<>> THEN (IF stack = <<>> THEN els ELSE Append(els, <<>>))
  ELSE LET t == Head(out) IN
    CASE t[1] = 0 -> Parse(Tail(out), pos + 1, stack, els)
      [] t[1] = 1 -> Parse(Tail(out), pos, <<<<t[2], t[3], pos>>>> \o stack, els)
      [] t[1] = 2 -> IF stack = <<>> \/ Head(stack)[1] # t[2] THEN Append(els, <<>>)
                     ELSE LET s == Head(stack) IN Parse(Tail(out), pos, Tail(stack), Append(els, <<s[1], s[2], s[3], pos>>))
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Cardinality({j \in DOMAIN p : p[j] = p[i]}) = Cardinality({j \in DOMAIN q : q[j] = p[i]})
Crossing(c) == \E i, j \in DOMAIN c : Crosses(Sp(c[i]), Sp(c[j]))
NestedRight(out, c) == Crossing(c) \/ SameBag(Parse(out, 0, <<>>, <<>>), c)
=============================================================================
