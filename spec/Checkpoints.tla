---------------------------- MODULE Checkpoints -----------------------------
(* Checkpoint directories: which names have been saved since the last reset.
   Handles and processes come and go; the state is the directories' alone, so no
   handle appears in it: the answer to a question cannot depend on who asks.
   made: directories some handle was made for (they exist, on disk).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Dirs, Names
VARIABLES saved, made, ans
vars == <<saved, made, ans>>
TypeOK == saved \in [Dirs -> SUBSET Names] /\ made \subseteq Dirs /\ ans \in {0, 1}
Init == saved = [d \in Dirs |-> {}] /\ made = {} /\ ans = 0
\* a (further) handle, given a path or a string
Handle(d) == made' = made \cup {d} /\ ans' = 0 /\ UNCHANGED saved
Set(d, n) == d \in made /\ saved' = [saved EXCEPT ![d] = @ \cup {n}] /\ ans' = 0 /\ UNCHANGED made
Ask(d, n) == d \in made /\ ans' = (IF n \in saved[d] THEN 1 ELSE 0) /\ UNCHANGED <<saved, made>>
Reset(d) == d \in made /\ saved' = [saved EXCEPT ![d] = {}] /\ ans' = 0 /\ UNCHANGED made
\* names which are not strings are refused
Bad(d) == d \in made /\ ans' = 0 /\ UNCHANGED <<saved, made>>
Next == \E d \in Dirs : Handle(d) \/ Reset(d) \/ Bad(d) \/ \E n \in Names : Set(d, n) \/ Ask(d, n)
Spec == Init /\ [][Next]_vars
Unmade == \A d \in Dirs \ made : saved[d] = {}
\* one directory's steps leave the others alone; a name goes only by a reset, and comes only by its own saving
Independent == [][\A d, e \in Dirs : d # e /\ saved'[d] # saved[d] => saved'[e] = saved[e]]_vars
OnlyReset == [][\A d \in Dirs : ~(saved[d] \subseteq saved'[d]) => saved'[d] = {}]_vars
OneAtATime == [][\A d \in Dirs : Cardinality(saved'[d] \ saved[d]) <= 1]_vars
=============================================================================
