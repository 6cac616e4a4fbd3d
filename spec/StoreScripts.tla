---------------------------- MODULE StoreScripts ----------------------------
(* What the store-to-store scripts may produce.  A store is a function from keys
   to values, given as a set of pairs; outputs are sequences of stores.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
KeysOf(st) == {p[1] : p \in st}
Functional(st) == \A p, q \in st : p[1] = q[1] => p = q
Only(st, ks) == {p \in st : p[1] \in ks}

\* split into n slices "of size as equal as possible"
EvenSplit(st, n, outs) ==
  /\ Len(outs) = n
  /\ UNION {outs[i] : i \in 1..n} = st
  /\ \A i, j \in 1..n : i # j => KeysOf(outs[i]) \cap KeysOf(outs[j]) = {}
  /\ \A i, j \in 1..n : Cardinality(outs[i]) - Cardinality(outs[j]) \in -1..1
\* explicit split: each output gets exactly its keys; a key not in the store is an error,
\* so is leaving something out when the split has to be exhaustive
ExplicitOK(st, lists, exh) == /\ \A i \in DOMAIN lists : lists[i] \subseteq KeysOf(st)
                              /\ exh => UNION {lists[i] : i \in DOMAIN lists} = KeysOf(st)
ExplicitOuts(st, lists) == [i \in DOMAIN lists |-> Only(st, lists[i])]
\* join: fails exactly when two inputs share a key
JoinOK(ins) == \A i, j \in DOMAIN ins : i # j => KeysOf(ins[i]) \cap KeysOf(ins[j]) = {}
JoinOut(ins) == UNION {ins[i] : i \in DOMAIN ins}
\* downsampling
Sampled(st, n, out) == out \subseteq st /\ Cardinality(out) = (IF n < Cardinality(st) THEN n ELSE Cardinality(st))
\* a choice made under each of many seeds: every item is chosen under some of them
Chances(st, outs) == UNION {outs[i] : i \in DOMAIN outs} = st
\* an archive converted: everything in it, or everything no larger than a cutoff (-1: no cutoff)
Kept(st, size, cut) == {p \in st : cut < 0 \/ size[p[2]] <= cut}
=============================================================================
