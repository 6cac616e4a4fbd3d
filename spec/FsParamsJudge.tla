---------------------------- MODULE FsParamsJudge ---------------------------
(* A record: the tree before, the working directory, the request, what came
   back [k, p], and the tree after.  Entries of a file carry the marks of
   having been opened or rewritten, so equality means untouched.             *)
EXTENDS FsParams, Judging
VARIABLE x
Ent(e) == [t |-> e.t, v |-> e.v, abs |-> e.abs, to |-> e.to]
FsOf(q) == [p \in {q[i].p : i \in DOMAIN q} |-> Ent(q[CHOOSE i \in DOMAIN q : q[i].p = p])]
Show(f) == {[p |-> p, e |-> f[p]] : p \in DOMAIN f}
J(i) ==
  LET r == Recs[i]  b == FsOf(r.before)  a == FsOf(r.after)  o == Outcome(b, r.cwd, r.req)
      w == Resolve(b, r.cwd, r.req.abs, r.req.comps) IN
  /\ WellFormed(b) \/ Reject(i, "harness: tree", "")
  \* giving a creatable file where there is a directory is refused or not
  /\ IF r.req.given = "path" /\ r.req.acc = "creatable_file" /\ w.ok /\ KindAt(b, w.p) = "dir"
     THEN a = b \/ Reject(i, "tree", Show(b))
     ELSE o.k = "any" \/
          /\ CASE o.k = "ret" -> (r.out.k = "ret" /\ r.out.p = o.p) \/ Reject(i, "answer", [k |-> o.k, p |-> o.p])
              [] o.k = "err" -> r.out.k \in {"perr", "err"} \/ Reject(i, "an error was due", o.k)
              [] OTHER -> r.out.k = o.k \/ Reject(i, "answer", o.k)
          /\ a = o.fs \/ Reject(i, "tree", Show(o.fs))
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
