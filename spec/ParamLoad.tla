----------------------------- MODULE ParamLoad ------------------------------
(* Loading parameter files: references in strings, and inclusion of files.   *)
EXTENDS ParamTree
WordChars == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
              "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
              "0","1","2","3","4","5","6","7","8","9","_",".","-","é","日"}
Ch(s, i) == SubSeq(s, i, i)
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
\* the text between two % is a reference when it is a word; the leftmost first, none within another
RefEnd(s, k) == {j \in (k + 2)..Len(s) : Ch(s, j) = "%" /\ \A m \in (k + 1)..(j - 1) : Ch(s, m) \in WordChars}
RefStarts(s, i) == {k \in i..Len(s) : Ch(s, k) = "%" /\ RefEnd(s, k) # {}}
RECURSIVE Split(_)
Split(w) == LET dots == {i \in 1..Len(w) : Ch(w, i) = "."}
            IN IF dots = {} THEN <<w>> ELSE <<SubSeq(w, 1, Least(dots) - 1)>> \o Split(SubSeq(w, Least(dots) + 1, Len(w)))
\* a string as parts: [ref, text, path]
RECURSIVE Parts(_)
Parts(s) ==
  LET ks == RefStarts(s, 1) IN
  IF s = "" THEN <<>>
  ELSE IF ks = {} THEN <<[ref |-> FALSE, text |-> s, path |-> <<>>]>>
  ELSE LET k == Least(ks)  j == Least(RefEnd(s, k))
           before == IF k = 1 THEN <<>> ELSE <<[ref |-> FALSE, text |-> SubSeq(s, 1, k - 1), path |-> <<>>]>>
       IN before \o <<[ref |-> TRUE, text |-> SubSeq(s, k, j), path |-> Split(SubSeq(s, k + 1, j - 1))]>> \o Parts(SubSeq(s, j + 1, Len(s)))
RefsIn(s) == LET ps == Parts(s) IN {ps[i].path : i \in {i \in DOMAIN ps : ps[i].ref}}
Refs(x) == IF x.t = "str" THEN RefsIn(x.v) ELSE {}
-----------------------------------------------------------------------------
(* Resolution of the references of own, with the surrounding context (a tree)
   and environment (a function from names to strings).  A value is a tree with
   a root <<>>, which is a leaf or a namespace; failed when it has no value.  *)
Failed == [t |-> "failed", v |-> "", n |-> 0]
Text(v) == [t |-> "str", v |-> v, n |-> 0]
Rooted(x) == (<<>> :> x)
Ok(val) == val[<<>>].t # "failed"
RefLeaves(own) == {p \in Leaves(own) : Refs(own[p]) # {}}
\* what a parameter needs of its own file
Needs(own, p) == UNION {IF r \notin DOMAIN own THEN {} ELSE IF IsNs(own[r]) THEN {q \in Leaves(own) : Prefix(r, q)} ELSE {r} : r \in Refs(own[p])}
RECURSIVE Grounded(_, _)
Grounded(own, S) == LET more == S \cup {p \in Leaves(own) : Needs(own, p) \subseteq S}
                    IN IF more = S THEN S ELSE Grounded(own, more)
Circular(own) == Grounded(own, {}) # Leaves(own)
Around(ctx, env, r) ==
  IF r \in DOMAIN ctx THEN [q \in {SubSeq(p, Len(r) + 1, Len(p)) : p \in BelowPaths(ctx, r) \cup {r}} |-> ctx[r \o q]]
  ELSE IF Len(r) = 1 /\ r[1] \in DOMAIN env /\ r \notin DOMAIN ctx THEN Rooted(Text(env[r[1]]))
  ELSE Rooted(Failed)
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Concat(Tail(q))
\* all values that are grafted at the given paths, below root r
Graft(vals, r) == [p \in UNION {{q \o s : s \in DOMAIN vals[q]} : q \in DOMAIN vals} |->
                     LET q == CHOOSE q \in DOMAIN vals : q = p \/ Prefix(q, p) IN vals[q][SubSeq(p, Len(q) + 1, Len(p))]]
RECURSIVE ValueAt(_, _, _, _)
\* the value of the node of own at p; own is not circular
ValueAt(own, ctx, env, p) ==
  IF IsNs(own[p])
  THEN LET kids == {q \in DOMAIN own : Prefix(p, q) /\ Len(q) = Len(p) + 1}
           vals == TLCEval([q \in kids |-> ValueAt(own, ctx, env, q)])
       IN IF \E q \in kids : ~Ok(vals[q]) THEN Rooted(Failed)
          ELSE Rooted(Ns) @@ Graft([s \in {<<q[Len(q)]>> : q \in kids} |-> vals[p \o s]], <<>>)
  ELSE LET ps == IF own[p].t = "str" THEN Parts(own[p].v) ELSE <<>>
           value(r) == IF r \in DOMAIN own THEN ValueAt(own, ctx, env, r) ELSE Around(ctx, env, r)
       IN IF \A i \in DOMAIN ps : ~ps[i].ref THEN Rooted(own[p])
          ELSE IF Len(ps) = 1 THEN value(ps[1].path)
          ELSE LET vs == TLCEval([i \in DOMAIN ps |-> IF ps[i].ref THEN value(ps[i].path)[<<>>] ELSE Text(ps[i].text)])
               IN IF \E i \in DOMAIN ps : vs[i].t # "str" THEN Rooted(Failed)
                  ELSE Rooted(Text(Concat([i \in DOMAIN ps |-> vs[i].v])))
Dotted(own) == \E p \in DOMAIN own : \E i \in DOMAIN p : \E k \in 1..Len(p[i]) : Ch(p[i], k) = "."
NoTree == [failed |-> TRUE, tree |-> Nothing]
Done(f) == [failed |-> FALSE, tree |-> f]
Interpolated(own, ctx, env) ==
  IF Dotted(own) \/ Circular(own) THEN NoTree
  ELSE LET tops == {p \in DOMAIN own : Len(p) = 1}
           vals == TLCEval([p \in tops |-> ValueAt(own, ctx, env, p)])
       IN IF \E p \in tops : ~Ok(vals[p]) THEN NoTree ELSE Done(Graft(vals, <<>>))
LoadOne(own, ctx, env) ==
  LET m == Interpolated(own, ctx, env)
  IN IF m.failed \/ ~Unifiable(ctx, m.tree) THEN NoTree ELSE Done(Unify(ctx, m.tree))
\* cases of which nothing is promised: referring to a null, or to something within a parameter
\* which is itself a reference, and nulls against something else
Through(own) == \E p \in RefLeaves(own) : \E r \in Refs(own[p]) : \E q \in RefLeaves(own) : Prefix(q, r)
Unpromised(own, ctx, env) ==
  \/ \E p \in RefLeaves(own) : \E r \in Refs(own[p]) : Null(Lookup(own, r)) \/ (r \notin DOMAIN own /\ Null(Lookup(ctx, r)))
  \/ Through(own)
  \/ LET m == Interpolated(own, ctx, env) IN ~m.failed /\ NullShared(ctx, m.tree)
-----------------------------------------------------------------------------
(* Files: fs maps absolute paths to [ok, incok, incs, own]; an include is
   [abs, path].  dirs are the directories there are.                         *)
RECURSIVE Walk(_, _, _)
Walk(dirs, at, q) ==    \* following q from directory at; <<"?">> when it leads nowhere
  IF at \notin dirs THEN <<"?">>
  ELSE IF q = <<>> THEN at
  ELSE LET c == Head(q)
           to == IF c = "." THEN at ELSE IF c = ".." THEN (IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1)) ELSE Append(at, c)
       IN IF Len(q) = 1 THEN to ELSE Walk(dirs, to, Tail(q))
Target(dirs, dir, inc) == IF inc.abs THEN Walk(dirs, <<>>, inc.path) ELSE IF dir = <<"?">> THEN <<"?">> ELSE Walk(dirs, dir, inc.path)
Dir(p) == SubSeq(p, 1, Len(p) - 1)
RECURSIVE LoadFile(_, _, _, _, _, _, _), LoadIncludes(_, _, _, _, _, _, _)
\* dir: where relative includes start; stack: the files being loaded
LoadFile(fs, dirs, file, dir, ctx, env, stack) ==
  IF ~file.ok \/ ~file.incok THEN NoTree
  ELSE LET prev == LoadIncludes(fs, dirs, file.incs, dir, ctx, env, stack)
       IN IF prev.failed THEN NoTree ELSE LoadOne(file.own, prev.tree, env)
LoadIncludes(fs, dirs, incs, dir, ctx, env, stack) ==
  IF incs = <<>> THEN Done(ctx)
  ELSE LET p == Target(dirs, dir, Head(incs)) IN
       IF p \notin DOMAIN fs \/ p \in stack THEN NoTree
       ELSE LET one == LoadFile(fs, dirs, fs[p], Dir(p), ctx, env, stack \cup {p})
            IN IF one.failed \/ ~Unifiable(ctx, one.tree) THEN NoTree
               ELSE LoadIncludes(fs, dirs, Tail(incs), dir, Unify(ctx, one.tree), env, stack)
=============================================================================
