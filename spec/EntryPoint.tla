----------------------------- MODULE EntryPoint -----------------------------
(* Running a program through the parameters entry point.  A command line is a
   sequence of tokens [k, s]: "p" (the option for overrides), "dash" (any
   other option) and "word".  It is read token by token.                     *)
EXTENDS ParamLoad
Bad == [st |-> "bad", files |-> <<>>, ov |-> <<>>, name |-> ""]
Start == [st |-> "free", files |-> <<>>, ov |-> <<>>, name |-> ""]
Scan(s, t) ==
  CASE s.st = "bad" -> s
    [] t.k = "dash" -> Bad
    [] t.k = "p" -> IF s.st = "free" THEN [s EXCEPT !.st = "name"] ELSE Bad
    [] s.st = "name" -> [s EXCEPT !.st = "value", !.name = t.s]
    [] s.st = "value" -> [s EXCEPT !.st = "free", !.ov = Append(s.ov, [n |-> s.name, v |-> t.s]), !.name = ""]
    [] OTHER -> [s EXCEPT !.files = Append(s.files, t.s)]
RECURSIVE ScanAll(_, _)
ScanAll(s, q) == IF q = <<>> THEN s ELSE ScanAll(Scan(s, Head(q)), Tail(q))
\* supplied: the program brings its own parameters, and so takes no file
Accepted(s, supplied) == s.st = "free" /\ Len(s.files) = (IF supplied THEN 0 ELSE 1)
-----------------------------------------------------------------------------
Pairs(ov) == [i \in DOMAIN ov |-> [p |-> Split(ov[i].n), t |-> "str", v |-> ov[i].v, n |-> 0]]
Nameless(ov) == \E i \in DOMAIN ov : ov[i].n = ""
\* names with empty parts: nothing is promised
OddNames(ov) == \E i \in DOMAIN ov : LET q == Split(ov[i].n) IN Len(q) > 1 /\ \E k \in DOMAIN q : q[k] = ""
Overridden(base, ov) ==
  IF Nameless(ov) THEN NoTree
  ELSE LET q == Pairs(ov) IN
       IF PairsClash(q) \/ ~Unifiable(base, FromPairs(q)) THEN NoTree ELSE Done(Unify(base, FromPairs(q)))
\* an override below a null
BelowNull(base, ov) == \E i \in DOMAIN ov : \E p \in DOMAIN base : Null(base[p]) /\ Prefix(p, Split(ov[i].n))
-----------------------------------------------------------------------------
Levels == [CRITICAL |-> 50, FATAL |-> 50, ERROR |-> 40, WARNING |-> 30, WARN |-> 30, INFO |-> 20, DEBUG |-> 10]
LevelAt == <<"logging", "root_level">>
LevelOk(f) == ~Present(f, LevelAt) \/ (f[LevelAt].t = "str" /\ f[LevelAt].v \in DOMAIN Levels)
Level(f) == IF Present(f, LevelAt) THEN Levels[f[LevelAt].v] ELSE 20
-----------------------------------------------------------------------------
\* base: the loaded file or what the program brings; what the program is called with, if it is
NotCalled == [called |-> FALSE, tree |-> Nothing, level |-> 0]
Run(s, supplied, base) ==
  IF ~Accepted(s, supplied) \/ base.failed THEN NotCalled
  ELSE LET m == Overridden(base.tree, s.ov) IN
       IF m.failed THEN NotCalled ELSE IF ~LevelOk(m.tree) THEN NotCalled
       ELSE [called |-> TRUE, tree |-> m.tree, level |-> Level(m.tree)]
=============================================================================
