------------------------------- MODULE MCFcm -------------------------------
(* The intervals of Fcm contain the exact memberships, for all small         *)
(* distance vectors, and the largest membership belongs to a nearest centre. *)
EXTENDS Fcm
CONSTANTS K, D, Err, Bug
VARIABLES ds, r, err
vars == <<ds, r, err>>
Init == ds \in [1..K -> 0..D] /\ r \in {1, 2, 4} /\ err \in 0..Err
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Iv == [j \in 1..K |-> <<MaxI(0, ds[j] * 50 - err), ds[j] * 50 + err>>]
\* exact membership of j for positive distances: 1 / Sum_i (d_j/d_i)^(1/r); compared for r = 1 exactly
Prod(S) == FoldLeft(LAMBDA a, x : a * x, 1, S)
Others(j) == Prod([i \in 1..K |-> IF i = j THEN 1 ELSE ds[i]])
All == Sum([j \in 1..K |-> Others(j)])
Encloses == (r = 1 /\ \A j \in 1..K : ds[j] > 0) =>
   LET u == Memberships(Iv, 1)
   IN \A j \in 1..K : u[j][1] * All <= U * Others(j) + All /\ U * Others(j) <= (u[j][2] + 1) * All
\* a membership that must be the largest belongs to a nearest centre
Largest == LET u == Memberships(Iv, r)
           IN \A j \in 1..K : (\A i \in 1..K : i # j => u[j][1] > u[i][2]) => \A i \in 1..K : ds[j] <= ds[i]
\* the exact memberships give the nearest centre the largest share ("epsmember": distance 0 gives membership 0)
Share(j) == IF ds[j] = 0 THEN (IF Bug = "epsmember" THEN 0 ELSE 1000000) ELSE 1000 \div ds[j]
ArgMax == CHOOSE j \in 1..K : \A i \in 1..K : Share(i) <= Share(j)
NearestIsLargest == \A i \in 1..K : ds[ArgMax] <= ds[i]
Ordered == LET u == Memberships(Iv, r) IN \A j \in 1..K : 0 <= u[j][1] /\ u[j][1] <= u[j][2] /\ u[j][2] <= U
SumOne == LET u == Memberships(Iv, r) IN Sum([j \in 1..K |-> u[j][1]]) <= U + K /\ Sum([j \in 1..K |-> u[j][2]]) >= U - K
=============================================================================
