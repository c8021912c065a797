------------------------------ MODULE DistTable ------------------------------
(* The table of half distances between centres and the threshold of each     *)
(* centre.  Everything is kept as 4 * (half distance)^2 = squared distance,  *)
(* an exact integer for integer centres.                                     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
SqDist(u, v) == LET RECURSIVE S(_)
                    S(j) == IF j = 0 THEN 0 ELSE (u[j] - v[j]) * (u[j] - v[j]) + S(j - 1)
                IN S(Len(u))
Taxi(u, v) == LET RECURSIVE S(_)
                  S(j) == IF j = 0 THEN 0 ELSE (IF u[j] < v[j] THEN v[j] - u[j] ELSE u[j] - v[j]) + S(j - 1)
              IN S(Len(u))
\* table[i][j] for i # j
Table(c) == [i \in DOMAIN c |-> [j \in DOMAIN c |-> SqDist(c[i], c[j])]]
Thresholds(c) == [i \in DOMAIN c |-> Min({SqDist(c[i], c[j]) : j \in DOMAIN c \ {i}})]
=============================================================================
