-------------------------------- MODULE Fcm --------------------------------
(* One pass of fuzzy c-means in interval arithmetic.  Coordinates are        *)
(* integers; a centre is known to within half a unit.  A row's membership in *)
(* centre j is s_j / Sum s with s_j = (1/dist_j)^(1/(m-1)); its weight is    *)
(* the membership to the power m; the label is a largest membership; the new *)
(* centre is the weighted mean.  [lo, hi] contains the exact value, times U. *)
EXTENDS Integers, Sequences, SequencesExt, TLC
U == 8192
AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
RECURSIVE RootIn(_, _, _)
RootIn(x, lo, hi) == IF lo >= hi THEN lo
                     ELSE LET mid == (lo + hi + 1) \div 2 IN IF mid * mid <= x THEN RootIn(x, mid, hi) ELSE RootIn(x, lo, mid - 1)
Root(x) == RootIn(x, 0, 46340)

\* floor(U * a / b) for 0 <= a <= b < 2^30
Ratio(a, b) == IF b = 0 THEN U ELSE
  FoldLeft(LAMBDA st, i : LET r == 2 * st[2] IN IF r >= b THEN <<2 * st[1] + 1, r - b>> ELSE <<2 * st[1], r>>,
           <<IF a = b THEN 1 ELSE 0, IF a = b THEN 0 ELSE a>>, [i \in 1..13 |-> i])[1]

\* squared or taxicab distance of a row and a centre known to within half a unit per coordinate
Dist(taxi, p, c) ==
  LET D == [j \in 1..Len(p) |-> AbsI(p[j] - c[j])]
      v == IF taxi THEN Sum(D) ELSE Sum([j \in 1..Len(p) |-> D[j] * D[j]])
      e == IF taxi THEN Len(p) ELSE Sum(D) + Len(p)
  IN <<MaxI(0, v - e), v + e>>

\* the r-th root (r = 1, 2, 4) of a ratio times U
RootLo(x, r) == IF r = 1 THEN x ELSE IF r = 2 THEN Root(x * U) ELSE Root(Root(x * U) * U)
RootHi(x, r) == LET y == IF r = 1 THEN x ELSE IF r = 2 THEN Root(x * U) + 1 ELSE Root(MinI((Root(x * U) + 1), U) * U) + 1 IN MinI(y, U)
RECURSIVE Power(_, _)
Power(x, m) == IF m = 1 THEN x ELSE (Power(x, m - 1) * x) \div U

\* memberships of a row whose distances lie in ds[j] = <<lo, hi>>
Memberships(ds, r) ==
  LET k == Len(ds)
      best == CHOOSE j \in 1..k : \A i \in 1..k : ds[j][2] <= ds[i][2]
      \* s relative to the best
      slo == [j \in 1..k |-> IF j = best THEN U ELSE RootLo(Ratio(MinI(ds[best][1], ds[j][2]), ds[j][2]), r)]
      shi == [j \in 1..k |-> IF j = best THEN U
                             ELSE IF ds[j][1] <= ds[best][2] THEN -1     \* not bounded by the best
                             ELSE RootHi(MinI(U, Ratio(ds[best][2], ds[j][1]) + 1), r)]
      loose == \E j \in 1..k : shi[j] = -1
  IN IF loose THEN [j \in 1..k |-> IF shi[j] = -1 \/ j = best THEN <<0, U>>
                                   ELSE <<0, MinI(U, RootHi(MinI(U, Ratio(ds[best][2], ds[j][1]) + 1), r))>>]
     ELSE [j \in 1..k |->
             LET olo == Sum([i \in 1..k |-> IF i = j THEN 0 ELSE slo[i]])
                 ohi == Sum([i \in 1..k |-> IF i = j THEN 0 ELSE shi[i]])
             IN <<(slo[j] * U) \div (slo[j] + ohi), MinI(U, (shi[j] * U) \div (shi[j] + olo) + 1)>>]

Weights(ds, r, m) ==
  LET u == Memberships(ds, r)
  IN [j \in 1..Len(ds) |-> <<MaxI(0, Power(u[j][1], m) - m), MinI(U, Power(u[j][2], m) + m)>>]

\* label of a largest membership: no other centre is certainly nearer
LabelOk(ds, x) == x \in 1..Len(ds) /\ \A j \in 1..Len(ds) : ds[x][1] <= ds[j][2]

\* c is the mean of the rows X with weights in the intervals w
MeanOk(X, w, c, d) ==
  LET n == Len(X)
      mid == [i \in 1..n |-> (w[i][1] + w[i][2]) \div 2]
      lo == Sum([i \in 1..n |-> w[i][1]])
      tot == Sum(mid)
  IN IF lo <= 64 \/ tot = 0 THEN TRUE            \* nothing known about so light a cluster
     ELSE \A j \in 1..d :
       LET a == Sum([i \in 1..n |-> mid[i] * X[i][j]]) \div tot
           spread == Sum([i \in 1..n |-> (w[i][2] - mid[i] + 1) * AbsI(X[i][j] - a)])
       IN AbsI(c[j] - a) <= spread \div lo + 3
=============================================================================
