----------------------------- MODULE FsParams -------------------------------
(* Parameters which name files and directories.  A file system is a function
   from paths below a root directory <<>> to entries: files (with content),
   directories, and symbolic links to paths (from the root if abs, else from
   the link's own directory).  A request is
     [acc, opt, given, abs, comps, del]
   - accessor, whether its optional form is used, what the parameter holds
   ("path", "absent", "null" or "other"), the path it holds as components (of
   a path from the root if abs, else from the working directory), and whether
   deletion was asked for.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
File(v) == [t |-> "file", v |-> v, abs |-> FALSE, to |-> <<>>]
Dir == [t |-> "dir", v |-> "", abs |-> FALSE, to |-> <<>>]
Link(a, to) == [t |-> "link", v |-> "", abs |-> a, to |-> to]
Accs == {"existing_file", "existing_directory", "creatable_file", "creatable_directory", "creatable_empty_directory"}

Front(p) == SubSeq(p, 1, Len(p) - 1)
Above(p) == {SubSeq(p, 1, k) : k \in 0..(Len(p) - 1)}
IsBelow(q, p) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
KindAt(fs, p) == IF p = <<>> THEN "dir" ELSE IF p \in DOMAIN fs THEN fs[p].t ELSE "none"
WellFormed(fs) == \A p \in DOMAIN fs : p # <<>> /\ KindAt(fs, Front(p)) = "dir"
-----------------------------------------------------------------------------
\* where a path leads, following links; what does not exist is taken as it is spelled
Nowhere == [ok |-> FALSE, p |-> <<>>]
RECURSIVE Walk(_, _, _, _)
Walk(fs, cur, rest, fuel) ==
  IF fuel = 0 THEN Nowhere
  ELSE IF rest = <<>> THEN [ok |-> TRUE, p |-> cur]
  ELSE LET h == Head(rest)  r == Tail(rest)  next == Append(cur, h) IN
       CASE h \in {".", ""} -> Walk(fs, cur, r, fuel)
         [] h = ".." -> Walk(fs, IF cur = <<>> THEN cur ELSE Front(cur), r, fuel)
         [] OTHER -> IF KindAt(fs, next) = "link"
                     THEN Walk(fs, IF fs[next].abs THEN <<>> ELSE cur, fs[next].to \o r, fuel - 1)
                     ELSE Walk(fs, next, r, fuel)
\* (more links on the way than there are can only go round in circles;
\*  a chain may meet one link many times, so be generous)
Resolve(fs, cwd, abs, comps) == Walk(fs, IF abs THEN <<>> ELSE cwd, comps, 40)
-----------------------------------------------------------------------------
Ret(p, fs) == [k |-> "ret", p |-> p, fs |-> fs]
Nothing(fs) == [k |-> "nothing", p |-> <<>>, fs |-> fs]
\* errors that are due to the parameter are ParameterErrors, others may be of any kind
ParamErr(fs) == [k |-> "perr", p |-> <<>>, fs |-> fs]
AnyErr(fs) == [k |-> "err", p |-> <<>>, fs |-> fs]

\* (there are other things than files and directories, like pipes)
Solid(k) == k \notin {"none", "dir"}
Blocked(fs, p) == \E q \in Above(p) : Solid(KindAt(fs, q))
WithDirs(fs, ps) == [p \in DOMAIN fs \cup (ps \ {<<>>}) |-> IF p \in DOMAIN fs THEN fs[p] ELSE Dir]
Missing(fs, p) == {q \in Above(p) : KindAt(fs, q) = "none"}
Emptied(fs, p) == [q \in {q \in DOMAIN fs : ~IsBelow(q, p)} |-> fs[q]]
IsEmpty(fs, p) == \A q \in DOMAIN fs : ~IsBelow(q, p)

MakeDir(fs, p) == IF Blocked(fs, p) \/ Solid(KindAt(fs, p)) THEN AnyErr(fs)
                  ELSE Ret(p, WithDirs(fs, Missing(fs, p) \cup {p}))
On(fs, r, p) ==
  CASE r.acc = "existing_file" -> IF KindAt(fs, p) = "file" THEN Ret(p, fs) ELSE ParamErr(fs)
    [] r.acc = "existing_directory" -> IF KindAt(fs, p) = "dir" THEN Ret(p, fs) ELSE ParamErr(fs)
    [] r.acc = "creatable_file" -> IF Blocked(fs, p) THEN AnyErr(fs) ELSE Ret(p, WithDirs(fs, Missing(fs, p)))
    [] r.acc = "creatable_directory" -> MakeDir(fs, p)
    [] r.acc = "creatable_empty_directory" ->
         CASE Solid(KindAt(fs, p)) -> ParamErr(fs)
           [] KindAt(fs, p) = "dir" -> IF IsEmpty(fs, p) THEN Ret(p, fs) ELSE IF r.del THEN Ret(p, Emptied(fs, p)) ELSE ParamErr(fs)
           [] OTHER -> MakeDir(fs, p)
\* links that go round in circles lead nowhere, but of ".." after them nothing is promised
Unpromised(fs) == [k |-> "any", p |-> <<>>, fs |-> fs]
Has(q, e) == \E i \in DOMAIN q : q[i] = e
Backward(fs, r) == Has(r.comps, "..") \/ \E p \in DOMAIN fs : Has(fs[p].to, "..")
Outcome(fs, cwd, r) ==
  CASE r.given \in {"absent", "null"} -> IF r.opt THEN Nothing(fs) ELSE ParamErr(fs)
    [] r.given = "other" -> ParamErr(fs)
    [] OTHER -> LET w == Resolve(fs, cwd, r.abs, r.comps) IN IF w.ok THEN On(fs, r, w.p) ELSE IF Backward(fs, r) THEN Unpromised(fs) ELSE AnyErr(fs)
=============================================================================
