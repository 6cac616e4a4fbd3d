----------------------------- MODULE FsParamsMC -----------------------------
(* Histories of requests and of changes made by others on a small tree.      *)
EXTENDS FsParams, Json
CONSTANTS Names, MaxDepth, Targets, Stamps, Histories, MaxLevel
VARIABLES fs
Target(n) == CASE n = 1 -> Link(TRUE, <<"a">>)
               [] n = 2 -> Link(FALSE, <<"b">>)
               [] n = 3 -> Link(FALSE, <<"..", "a">>)
               [] n = 4 -> Link(TRUE, <<"a", "b">>)
               [] n = 5 -> Link(TRUE, <<"b", "c">>)
               [] n = 6 -> Link(FALSE, <<".">>)
Links == {Target(n) : n \in Targets}
Paths == UNION {[1..n -> Names] : n \in 1..MaxDepth}
Files == {File(s) : s \in Stamps}
Entry == Files \cup {Dir} \cup Links
\* (no link leads above the root)
Fits(p, e) == IF e.to = <<>> THEN TRUE ELSE Head(e.to) # ".." \/ Len(p) > 1
\* every tree of at most MaxDepth levels
Trees == {f \in UNION {[D -> Entry] : D \in SUBSET Paths} : WellFormed(f) /\ \A p \in DOMAIN f : Fits(p, f[p])}
Req(a, o, g, b, c, d) == [acc |-> a, opt |-> o, given |-> g, abs |-> b, comps |-> c, del |-> d]
Spelt == {<<n>> : n \in Names} \cup {<<n, m>> : n, m \in Names} \cup {<<n, "..", m>> : n, m \in Names} \cup {<<"a", "b", "c">>, <<"a", ".", "b">>}
Reqs == {Req(a, FALSE, "path", b, c, d) : a \in Accs, b \in {TRUE}, c \in Spelt, d \in {FALSE}}
        \cup {Req("creatable_empty_directory", FALSE, "path", TRUE, c, TRUE) : c \in Spelt}
\* every tree, or the histories starting from the empty one
Init == fs \in IF Histories THEN {[p \in {} |-> Dir]} ELSE Trees
Ask == \E r \in Reqs : fs' = Outcome(fs, <<>>, r).fs
Put == \E p \in Paths, e \in Entry : /\ p \notin DOMAIN fs /\ KindAt(fs, Front(p)) = "dir" /\ Fits(p, e)
                                    /\ fs' = (p :> e) @@ fs
Drop == \E p \in DOMAIN fs : fs' = [q \in {q \in DOMAIN fs : q # p /\ ~IsBelow(q, p)} |-> fs[q]]
Next == Histories /\ (Ask \/ Put \/ Drop)
Depth == TLCGet("level") <= MaxLevel
-----------------------------------------------------------------------------
Same(f, g, ps) == \A p \in ps : KindAt(f, p) = KindAt(g, p) /\ (p \in DOMAIN f \cap DOMAIN g => f[p] = g[p])
Law(b, r, o) ==
     LET w == Resolve(b, <<>>, r.abs, r.comps)  f == o.fs IN
     /\ WellFormed(f)
     \* failing or looking changes nothing
     /\ (o.k # "ret" \/ r.acc \in {"existing_file", "existing_directory"}) => f = b
     \* what is given back is where the path leads
     /\ o.k = "ret" => (w.ok /\ o.p = w.p)
     /\ o.k = "ret" => \A q \in Above(o.p) \cup {o.p} : KindAt(f, q) # "link"
     \* existing ones exist, and are given back whenever they do
     /\ r.acc = "existing_file" => (o.k = "ret" <=> (w.ok /\ KindAt(b, w.p) = "file"))
     /\ r.acc = "existing_directory" => (o.k = "ret" <=> (w.ok /\ KindAt(b, w.p) = "dir"))
     \* the parent is ready for writing, the file itself as it was
     /\ (r.acc = "creatable_file" /\ o.k = "ret") => /\ o.p # <<>> => KindAt(f, Front(o.p)) = "dir"
                                                    /\ Same(b, f, {o.p})
     /\ (r.acc \in {"creatable_directory", "creatable_empty_directory"} /\ o.k = "ret") => KindAt(f, o.p) = "dir"
     /\ (r.acc = "creatable_empty_directory" /\ o.k = "ret") => IsEmpty(f, o.p)
     \* nothing is lost but what deletion was asked for
     /\ \A q \in DOMAIN b \ DOMAIN f : r.del /\ o.k = "ret" /\ IsBelow(q, o.p)
     /\ Same(b, f, DOMAIN b \cap DOMAIN f)
     \* nothing is made but missing directories on the way
     /\ \A q \in DOMAIN f \ DOMAIN b : o.k = "ret" /\ f[q] = Dir /\ (q = o.p \/ q \in Above(o.p))
     \* asking again gives the same (deleting may remove a link on the way)
     /\ (o.k = "ret" /\ ~r.del) => LET o2 == Outcome(f, <<>>, r) IN o2.k = "ret" /\ o2.p = o.p /\ o2.fs = f
Laws == WellFormed(fs) /\ \A r \in Reqs : Law(fs, r, Outcome(fs, <<>>, r))
Ents(f) == {[p |-> p, t |-> f[p].t, v |-> f[p].v, abs |-> f[p].abs, to |-> f[p].to] : p \in DOMAIN f}
\* what every request on this tree gives; for those which change it, how
Visit == PrintT(ToJson([fs |-> Ents(fs), asks |-> {[req |-> r, k |-> Outcome(fs, <<>>, r).k, p |-> Outcome(fs, <<>>, r).p,
                                                     more |-> DOMAIN Outcome(fs, <<>>, r).fs \ DOMAIN fs,
                                                     less |-> DOMAIN fs \ DOMAIN Outcome(fs, <<>>, r).fs] : r \in Reqs}]))
=============================================================================
