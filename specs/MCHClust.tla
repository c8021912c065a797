------------------------------ MODULE MCHClust ------------------------------
(* All small instances of HClust; a round makes at most Passes passes.       *)
EXTENDS HClust, TLC
CONSTANTS N, R, Cap, MinC, Passes, Undoes, Tols, Bug
VARIABLES n          \* passes of this round
allvars == <<par, lab, part, tree, fin, phase, n>>
Rat1(i) == [s |-> par.P[i], n |-> 1]
MCInit ==
  /\ \E X \in [1..N -> 0..R] : \E t \in Tols :
       /\ \A i \in 1..(N-1) : X[i] <= X[i+1]
       /\ par = [P |-> [i \in 1..N |-> <<X[i]>>], d |-> 1, metric |-> "eucl", cap |-> Cap, min |-> MinC,
                 tolN |-> t[1], tolD |-> t[2], canUndo |-> Undoes]
  /\ lab = [i \in 1..N |-> 0] /\ part = lab /\ fin = <<>> /\ phase = "pass" /\ n = 0
  /\ \E x, y \in 1..N : tree = (0 :> [l |-> 1, r |-> 2, c |-> <<Rat1(x), Rat1(y)>>, conv |-> FALSE])
\* labellings a pass may produce (ties go either way)
Labellings ==
  {f \in {[i \in Rows |-> IF ~Moving(i) THEN lab[i] ELSE IF i \in S THEN tree[part[i]].r ELSE tree[part[i]].l] :
          S \in SUBSET {i \in Rows : Moving(i)}} : PassLabels(f)}
DoPass == n < Passes /\ (\E p \in DOMAIN tree : ~tree[p].conv) /\ (\E f \in Labellings : Pass(f)) /\ n' = n + 1
RoundOver == n >= 1 /\ (n = Passes \/ \A p \in DOMAIN tree : tree[p].conv)
\* wrong variant: only the left child's rows return
HalfUndo(U) == /\ phase = "pass"
               /\ lab' = [i \in Rows |-> IF part[i] \in U /\ lab[i] = tree[part[i]].l THEN part[i] ELSE lab[i]]
               /\ fin' = [x \in DOMAIN fin \cup U |-> IF x \in U THEN Mean(part, x) ELSE fin[x]]
               /\ tree' = Only(tree, DOMAIN tree \ U)
               /\ phase' = "decided" /\ UNCHANGED <<par, part>>
DoUndo == Undoes /\ RoundOver /\ (\E U \in SUBSET DOMAIN tree : IF Bug = "halfundo" THEN HalfUndo(U) ELSE Undo(U)) /\ UNCHANGED n
\* fresh ids are the smallest free ones, as parents are visited in order; the cap stops splitting
Kids == Children(tree)
\* the id of a parent that is gone, the root's 0 among them, may return
Fresh(used) == CHOOSE x \in 0..100 : x \notin used /\ \A y \in 0..(x-1) : y \in used
RECURSIVE Build(_, _, _, _)
Build(ks, used, leaves, acc) ==
  IF ks = {} THEN acc
  ELSE LET c == CHOOSE c \in ks : \A e \in ks : c <= e
           M == In(lab, c)
       IN IF Cardinality(M) < par.min \/ leaves >= par.cap THEN Build(ks \ {c}, used, leaves, acc)
          ELSE LET a == Fresh(used)
                   b == Fresh(used \cup {a})
                   x == CHOOSE x \in M : \A y \in M : x <= y
                   y == CHOOSE y \in M \ {x} : \A z \in M \ {x} : y <= z
               IN Build(ks \ {c}, used \cup {a, b}, leaves + 1,
                        acc @@ (c :> [l |-> a, r |-> b, c |-> <<Rat1(x), Rat1(y)>>, conv |-> FALSE]))
NewTree == Build(Kids, Kids \cup (IF Bug = "retiredid" THEN {} ELSE DOMAIN fin),
                 Cardinality(Leaves(tree, fin)), <<>>)
DoSplit == /\ RoundOver /\ ~MayEnd /\ (Undoes => phase = "decided")
           /\ IF Bug = "none" THEN Split(NewTree) ELSE SplitEffect(NewTree)
           /\ n' = 0
DoEnd == /\ DOMAIN tree = {} \/ (RoundOver /\ (Undoes => phase = "decided"))
         /\ End /\ UNCHANGED n
MCNext == DoPass \/ DoUndo \/ DoSplit \/ DoEnd
MCSpec == MCInit /\ [][MCNext]_allvars /\ WF_allvars(MCNext)
Ends == <>(phase = "done")
\* nothing gets stuck before the end
NotStuck == phase = "done" \/ ENABLED MCNext
TolsB == {<<0, 1>>}
TolsA == {<<0, 1>>, <<1, 2>>}
=============================================================================
