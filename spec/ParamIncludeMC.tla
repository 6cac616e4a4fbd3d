--------------------------- MODULE ParamIncludeMC ---------------------------
(* A loader with a stack of open files, over all small inclusion graphs (three
   files in two directories, and one that is not there), against the
   recursive definition.                                                     *)
EXTENDS ParamLoad, Json
CONSTANTS MaxIncs
VARIABLES incs, refs, stack, out
vars == <<incs, refs, stack, out>>
Files == 1..3
\* file 1 is /t/f1, file 2 is /t/f2, file 3 is /t/d/f3; 4 is not there
Path(i) == CASE i = 1 -> <<"t", "f1">> [] i = 2 -> <<"t", "f2">> [] i = 3 -> <<"t", "d", "f3">> [] i = 4 -> <<"t", "f4">>
Dirs == {<<>>, <<"t">>, <<"t", "d">>}
RelTo(dir, i) == IF dir = <<"t">> THEN Tail(Path(i)) ELSE (IF i = 3 THEN <<"f3">> ELSE <<"..", Path(i)[2]>>)
Inc(from, i) == IF i = 4 /\ from = 2 THEN [abs |-> TRUE, path |-> Path(i)]
                ELSE IF i = 2 THEN [abs |-> TRUE, path |-> Path(i)] ELSE [abs |-> FALSE, path |-> RelTo(Dir(Path(from)), i)]
\* every file has a parameter of its own, one all have, a nested one, and one referring to what an included file may give
Own(i) == (<<"all">> :> Text("file" \o ToString(i))) @@ (<<"own" \o ToString(i)>> :> [t |-> "int", v |-> ToString(i), n |-> 10 * i])
          @@ (<<"n">> :> Ns) @@ (<<"n", "x" \o ToString(i)>> :> Text("v")) @@ (<<"n", "y">> :> Text("y" \o ToString(i)))
          @@ (IF refs[i] = 0 THEN Nothing ELSE (<<"ref" \o ToString(i)>> :> Text("%own" \o ToString(refs[i]) \o "%")))
FS == [p \in {Path(i) : i \in Files} |-> LET i == CHOOSE i \in Files : Path(i) = p IN
         [ok |-> TRUE, incok |-> TRUE, incs |-> [k \in DOMAIN incs[i] |-> Inc(i, incs[i][k])], own |-> Own(i)]]
Ctx == (<<"all">> :> Text("ctx")) @@ (<<"given">> :> Text("g"))
NoEnv == [x \in {} |-> ""]
Lists == UNION {[1..n -> 1..4] : n \in 0..MaxIncs}
Frame(i, prev) == [file |-> i, left |-> incs[i], prev |-> prev]
NotYet == [failed |-> FALSE, tree |-> Nothing, over |-> FALSE]
Init == /\ incs \in [Files -> Lists] /\ refs \in [Files -> {0, 2}]
        /\ refs[2] = 0 /\ (refs[3] = 0 \/ refs[1] = 0)
        /\ stack = <<Frame(1, Ctx)>> /\ out = NotYet
Top == stack[Len(stack)]
Fails == out' = [failed |-> TRUE, tree |-> Nothing, over |-> TRUE] /\ stack' = <<>>
Open == /\ stack # <<>> /\ Top.left # <<>>
        /\ LET i == Head(Top.left) IN
             IF i = 4 \/ \E k \in DOMAIN stack : stack[k].file = i THEN Fails
             ELSE /\ stack' = Append([stack EXCEPT ![Len(stack)].left = Tail(@)], Frame(i, Top.prev))
                  /\ out' = out
        /\ UNCHANGED <<incs, refs>>
Close == /\ stack # <<>> /\ Top.left = <<>>
         /\ LET m == LoadOne(Own(Top.file), Top.prev, NoEnv) IN
              IF m.failed THEN Fails
              ELSE IF Len(stack) = 1 THEN out' = [failed |-> FALSE, tree |-> m.tree, over |-> TRUE] /\ stack' = <<>>
              ELSE /\ stack' = [SubSeq(stack, 1, Len(stack) - 1) EXCEPT ![Len(stack) - 1].prev = m.tree]
                   /\ out' = out
         /\ UNCHANGED <<incs, refs>>
Next == Open \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(out.over)
Defined == LoadFile(FS, Dirs, FS[Path(1)], Dir(Path(1)), Ctx, NoEnv, {Path(1)})
RECURSIVE Reach(_)
Reach(S) == LET m == S \cup UNION {{incs[i][k] : k \in DOMAIN incs[i]} : i \in S \ {4}} IN IF m = S THEN S ELSE Reach(m)
Correct == out.over =>
  /\ out.failed = Defined.failed /\ out.tree = Defined.tree
  /\ ~out.failed =>
       /\ IsTree(out.tree) /\ 4 \notin Reach({1})
       \* everything of every file is there, the includer's own entries win, the context is beneath
       /\ \A i \in Reach({1}) : DOMAIN Own(i) \subseteq DOMAIN out.tree
       /\ out.tree[<<"all">>] = Text("file1") /\ out.tree[<<"n", "y">>] = Text("y1")
       /\ out.tree[<<"given">>] = Text("g")
       /\ \A p \in DOMAIN out.tree : p \in DOMAIN Ctx \/ \E i \in Reach({1}) : p \in DOMAIN Own(i)
NoStep == FALSE /\ UNCHANGED vars
File(i) == [path |-> Path(i), ok |-> TRUE, incok |-> TRUE, incs |-> FS[Path(i)].incs, own |-> Entries(Own(i))]
Visit == PrintT(ToJson([files |-> <<File(1), File(2), File(3)>>, failed |-> Defined.failed]))
=============================================================================
