------------------------------- MODULE HClust -------------------------------
(* Divisive clustering as in hierarchical k-means, x-means and g-means.      *)
(* Every row belongs to a partition (a live parent id, or a retired cluster).*)
(* A live parent has two children with centres; a pass is a two-means pass   *)
(* inside every parent that has not converged; x-means and g-means may then  *)
(* undo whole splits; a split step turns every child into a retired cluster  *)
(* or into a parent with two fresh ids.                                      *)
EXTENDS Lloyd, TLC
VARIABLES par,    \* instance: P rows, d, metric, cap (most clusters), min (smaller ones retire), tolN, tolD, canUndo
          lab,    \* row -> cluster id
          part,   \* row -> partition id
          tree,   \* live parent id -> [l, r, c, conv]
          fin,    \* retired cluster id -> its centre
          phase   \* "pass", "decided", "done"
hvars == <<par, lab, part, tree, fin, phase>>

Rows == 1..Len(par.P)
Ones == [i \in Rows |-> 1]
In(f, id) == {i \in Rows : f[i] = id}
Mean(f, id) == MeanOf(par.P, Ones, f, id, par.d)
Children(t) == {t[p].l : p \in DOMAIN t} \cup {t[p].r : p \in DOMAIN t}
InUse(t, f) == DOMAIN t \cup Children(t) \cup DOMAIN f
\* clusters that exist now
Leaves(t, f) == Children(t) \cup DOMAIN f

Nearer(t, p, i, id) ==
  LET bis == Bisectors(t[p].c)
  IN \/ id = t[p].l /\ Nearest(par.metric, par.P[i], 1, t[p].c, bis)
     \/ id = t[p].r /\ Nearest(par.metric, par.P[i], 2, t[p].c, bis)
Moving(i) == part[i] \in DOMAIN tree /\ ~tree[part[i]].conv
\* new is a possible labelling after a pass
PassLabels(new) == \A i \in Rows : IF Moving(i) THEN Nearer(tree, part[i], i, new[i]) ELSE new[i] = lab[i]
ChangedIn(new, p) == Cardinality({i \in In(part, p) : new[i] # lab[i]})
ConvRule(new, p) == LET ch == ChangedIn(new, p)
                    IN ch = 0 \/ ch * par.tolD <= par.tolN * Cardinality(In(part, p))
PassTree(new) ==
  TLCEval([p \in DOMAIN tree |->
     IF tree[p].conv THEN tree[p]
     ELSE [tree[p] EXCEPT !.c = <<Mean(new, tree[p].l), Mean(new, tree[p].r)>>, !.conv = ConvRule(new, p)]])
Pass(new) == /\ phase = "pass" /\ PassLabels(new) = TRUE
             /\ lab' = new /\ tree' = PassTree(new)
             /\ UNCHANGED <<par, part, fin, phase>>

Only(f, S) == TLCEval([x \in S |-> f[x]])
\* undo the splits of the parents in U: their rows, their count and their mean are back
Undo(U) ==
  /\ phase = "pass" /\ U \subseteq DOMAIN tree
  /\ lab' = [i \in Rows |-> IF part[i] \in U THEN part[i] ELSE lab[i]]
  /\ fin' = [x \in DOMAIN fin \cup U |-> IF x \in U THEN Mean(part, x) ELSE fin[x]]
  /\ tree' = Only(tree, DOMAIN tree \ U)
  /\ phase' = "decided" /\ UNCHANGED <<par, part>>

\* every child retires (set Ret) or becomes a parent with two fresh ids and two of its rows as centres
CountOf(c) == Cardinality(In(lab, c))
CentreOf(c) == LET p == CHOOSE p \in DOMAIN tree : c \in {tree[p].l, tree[p].r}
               IN IF tree[p].l = c THEN tree[p].c[1] ELSE tree[p].c[2]
SplitOk(new) ==
  LET Kids == Children(tree)
      Ret == Kids \ DOMAIN new
      fin2 == DOMAIN fin \cup Ret
      leaves == Cardinality(fin2) + 2 * Cardinality(DOMAIN new)
  IN /\ DOMAIN new \subseteq Kids
     /\ \A c \in DOMAIN new :
          /\ CountOf(c) >= par.min /\ ~new[c].conv
          /\ new[c].l # new[c].r
          /\ {new[c].l, new[c].r} \cap (Kids \cup DOMAIN fin) = {}
          /\ \A e \in DOMAIN new : e # c => {new[c].l, new[c].r} \cap {new[e].l, new[e].r} = {}
          /\ \E x, y \in In(lab, c) : /\ x # y
                                      /\ new[c].c = <<[s |-> par.P[x], n |-> 1], [s |-> par.P[y], n |-> 1]>>
     \* a cluster large enough to split retires only because no more clusters are wanted
     /\ (\E c \in Ret : CountOf(c) >= par.min) => leaves >= par.cap
     /\ leaves <= par.cap
SplitEffect(new) ==
  /\ LET Ret == Children(tree) \ DOMAIN new
     IN fin' = [x \in DOMAIN fin \cup Ret |-> IF x \in DOMAIN fin THEN fin[x] ELSE CentreOf(x)]
  /\ tree' = new /\ part' = lab /\ phase' = "pass" /\ UNCHANGED <<par, lab>>
Split(new) == /\ phase \in {"pass", "decided"} /\ (par.canUndo => phase = "decided")
              /\ SplitOk(new) = TRUE /\ SplitEffect(new)

\* the end: no live parent, or enough clusters
MayEnd == DOMAIN tree = {} \/ Cardinality(Leaves(tree, fin)) >= par.cap
FinalCentre(c) == IF c \in DOMAIN fin THEN fin[c] ELSE CentreOf(c)
End == /\ phase \in {"pass", "decided"} /\ MayEnd
       /\ phase' = "done" /\ UNCHANGED <<par, lab, part, tree, fin>>

\* ------------------------------------------------------------- invariants
IdsDistinct ==
  /\ Children(tree) \cap DOMAIN fin = {}
  /\ \A p, q \in DOMAIN tree : p # q => {tree[p].l, tree[p].r} \cap {tree[q].l, tree[q].r} = {}
\* a row carries the id of an existing cluster (or still its partition's before the first pass)
RowsPlaced == \A i \in Rows : \/ lab[i] \in DOMAIN fin
                              \/ part[i] \in DOMAIN tree /\ lab[i] \in {part[i], tree[part[i]].l, tree[part[i]].r}
FinMeans == \A c \in DOMAIN fin : In(lab, c) # {} => fin[c] = Mean(lab, c)
Capped == Cardinality(Leaves(tree, fin)) <= par.cap
NonEmpty == {c \in Leaves(tree, fin) : In(lab, c) # {}}
DoneOk == phase = "done" =>
            /\ \A i \in Rows : lab[i] \in NonEmpty
            /\ Cardinality(NonEmpty) \in 1..par.cap
            /\ \A c \in NonEmpty : FinalCentre(c) = Mean(lab, c)
\* rows stay inside their partition, or return to it
Refines == [][\A i, j \in Rows : (part[i] # part[j]) => (part'[i] # part'[j] /\ lab'[i] # lab'[j])]_hvars
RetiredStay == [][\A c \in DOMAIN fin : In(lab, c) = In(lab', c) /\ c \in DOMAIN fin' /\ fin'[c] = fin[c]]_hvars
=============================================================================
