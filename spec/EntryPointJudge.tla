--------------------------- MODULE EntryPointJudge --------------------------
(* A record: the command line, the files there are and where each word leads,
   what the program brings (or not), how it ends when called, the calls it
   saw with the root logger's level then, and how the run ended.             *)
EXTENDS EntryPoint, Judging
VARIABLE x
Files(q) == [p \in {q[i].path : i \in DOMAIN q} |-> LET e == q[CHOOSE i \in DOMAIN q : q[i].path = p]
                                                   IN [ok |-> e.ok, incok |-> e.incok, incs |-> e.incs, own |-> TreeOf(e.own)]]
EnvOf(q) == [k \in {q[i][1] : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i][1] = k][2]]
Range(q) == {q[i] : i \in DOMAIN q}
PathOf(r, s) == IF \E i \in DOMAIN r.words : r.words[i].s = s THEN r.words[CHOOSE i \in DOMAIN r.words : r.words[i].s = s].path ELSE <<"?">>
J(i) ==
  LET r == Recs[i]  fs == Files(r.files)  env == EnvOf(r.env)
      s == ScanAll(Start, r.line)
      sup == Done(TreeOf(r.sup))
      file == IF Accepted(s, FALSE) THEN PathOf(r, s.files[1]) ELSE <<"?">>
      base == IF r.supplied THEN sup
              ELSE IF file \notin DOMAIN fs THEN NoTree
              ELSE LoadFile(fs, Range(r.dirs), fs[file], Dir(file), Nothing, env, {file})
      o == Run(s, r.supplied, base)
      loose == \/ \E p \in DOMAIN fs : Through(fs[p].own)
               \/ \E p \in DOMAIN fs : Unpromised(fs[p].own, Nothing, env)
               \/ OddNames(s.ov)
               \/ (~base.failed /\ BelowNull(base.tree, s.ov))
      calls == [j \in DOMAIN r.calls |-> [tree |-> TreeOf(r.calls[j].tree), level |-> r.calls[j].level]]
  IN IF loose THEN Len(r.calls) <= 1 \/ Reject(i, "called more than once", "")
     ELSE IF o.called
     THEN /\ (calls = <<[tree |-> o.tree, level |-> o.level]>> /\ Len(r.calls[1].tree) = Cardinality(DOMAIN o.tree)) \/ Reject(i, "calls of the program", [tree |-> Entries(o.tree), level |-> o.level])
          /\ r.ended = (IF r.main = "raises" THEN "main's" ELSE "ok") \/ Reject(i, "end of the run", r.main)
     ELSE /\ calls = <<>> \/ Reject(i, "the program was called", "")
          /\ r.ended \in {"err", "exit"} \/ Reject(i, "end of the run", "err")
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
