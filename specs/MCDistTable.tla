---------------------------- MODULE MCDistTable ----------------------------
(* compute_dist as implemented: a triangular table filled pair by pair while *)
(* the thresholds of both centres of a pair are lowered.  Bug "noreset"      *)
(* keeps old thresholds, "onlyrow" lowers one of the two, "transpose" mixes  *)
(* the index translation up.                                                 *)
EXTENDS DistTable, TLC
CONSTANTS K, R, Bug
VARIABLES cen, mat, thr, fresh
vars == <<cen, mat, thr, fresh>>
Big == 1000
Lo(i, j) == IF i < j THEN i ELSE j
Hi(i, j) == IF i < j THEN j ELSE i
\* cell of a pair: row = smaller index, column = distance of the indices
Cell(i, j) == <<Lo(i, j), Hi(i, j) - Lo(i, j)>>
Get(i, j) == mat[Cell(i, j)]
Cells == {<<r, c>> \in (1..K) \X (1..K) : r + c <= K}
Init == /\ cen \in [1..K -> {<<x>> : x \in 0..R}] /\ mat = [c \in Cells |-> Big] /\ thr = [i \in 1..K |-> Big] /\ fresh = FALSE
Move(i, x) == cen' = [cen EXCEPT ![i] = <<x>>] /\ fresh' = FALSE /\ UNCHANGED <<mat, thr>>
Pairs == {<<i, j>> \in (1..K) \X (1..K) : i < j}
MinOf(a, b) == IF a < b THEN a ELSE b
Compute ==
  /\ mat' = [q \in Cells |-> SqDist(cen[q[1]], cen[q[1] + q[2]])]
  /\ thr' = [i \in 1..K |->
       LET S == {SqDist(cen[p[1]], cen[p[2]]) : p \in {p \in Pairs : p[1] = i \/ (Bug # "onlyrow" /\ p[2] = i)}}
           start == IF Bug = "noreset" THEN thr[i] ELSE Big
       IN IF S = {} THEN start ELSE MinOf(start, Min(S))]
  /\ fresh' = TRUE /\ UNCHANGED cen
Next == Compute \/ \E i \in 1..K, x \in 0..R : Move(i, x)
Spec == Init /\ [][Next]_vars
Exact == fresh => (\A i, j \in 1..K : i # j => Get(i, j) = Table(cen)[i][j]) /\ thr = Thresholds(cen)
=============================================================================
