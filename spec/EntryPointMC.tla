---------------------------- MODULE EntryPointMC ----------------------------
(* Every command line of a few tokens, read token by token.                  *)
EXTENDS EntryPoint, Json
CONSTANTS MaxLen
VARIABLES line, scan, supplied
vars == <<line, scan, supplied>>
T(k, s) == [k |-> k, s |-> s]
Tokens == {T("p", "-p"), T("dash", "-x"), T("word", "a"), T("word", "a.b"), T("word", "f"), T("word", "")}
S(v) == [t |-> "str", v |-> v, n |-> 0]
\* the file f, loaded; nothing else can be
Loaded == (<<"a">> :> S("one")) @@ (<<"f">> :> Ns) @@ (<<"f", "b">> :> S("two"))
Brought == (<<"a">> :> Ns) @@ (<<"a", "b">> :> S("three")) @@ (<<"logging">> :> Ns) @@ (<<"logging", "root_level">> :> S("DEBUG"))
Base == IF supplied THEN Done(Brought) ELSE IF scan.files = <<"f">> THEN Done(Loaded) ELSE NoTree
Init == line = <<>> /\ scan = Start /\ supplied \in BOOLEAN
\* (what is malformed from the start on only grows a little)
Read == /\ Len(line) < MaxLen /\ ((scan.st = "bad" \/ Len(scan.files) > 1) => Len(line) < 4)
        /\ \E t \in Tokens : line' = Append(line, t) /\ scan' = Scan(scan, t)
        /\ UNCHANGED supplied
Next == Read
-----------------------------------------------------------------------------
\* a command line is well formed when it splits into words and overrides
IsBlock(q) == (Len(q) = 1 /\ q[1].k = "word") \/ (Len(q) = 3 /\ q[1].k = "p" /\ q[2].k = "word" /\ q[3].k = "word")
RECURSIVE Splits(_)
Splits(q) == IF q = <<>> THEN {<<>>}
             ELSE UNION {{<<SubSeq(q, 1, n)>> \o s : s \in Splits(SubSeq(q, n + 1, Len(q)))} : n \in {n \in {1, 3} : n <= Len(q) /\ IsBlock(SubSeq(q, 1, n))}}
Laws ==
  LET ss == Splits(line)  o == Run(scan, supplied, Base) IN
  \* the reading is the one there is
  /\ Cardinality(ss) <= 1
  /\ (scan.st = "free") <=> (ss # {})
  /\ ScanAll(Start, line) = scan
  /\ \A s \in ss : /\ Len(scan.ov) = Cardinality({i \in DOMAIN s : Len(s[i]) = 3})
                   /\ Len(scan.files) = Cardinality({i \in DOMAIN s : Len(s[i]) = 1})
  /\ o.called =>
       /\ IsTree(o.tree)
       \* the last override of a name counts, as given
       /\ \A i \in DOMAIN scan.ov : (\A j \in DOMAIN scan.ov : j > i => scan.ov[j].n # scan.ov[i].n) => o.tree[Split(scan.ov[i].n)] = S(scan.ov[i].v)
       \* everything else is as it was, and nothing is added
       /\ \A p \in DOMAIN Base.tree : (\A i \in DOMAIN scan.ov : Split(scan.ov[i].n) # p) => o.tree[p] = Base.tree[p]
       /\ \A p \in DOMAIN o.tree \ DOMAIN Base.tree : \E i \in DOMAIN scan.ov : p = Split(scan.ov[i].n) \/ Prefix(p, Split(scan.ov[i].n))
  /\ (scan.ov = <<>> /\ Accepted(scan, supplied) /\ ~Base.failed) => (o.called /\ o.tree = Base.tree)
Visit == (Len(line) > 5 /\ ~Run(scan, supplied, Base).called) \/ PrintT(ToJson([line |-> line, supplied |-> supplied, called |-> Run(scan, supplied, Base).called]))
=============================================================================
