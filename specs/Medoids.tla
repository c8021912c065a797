------------------------------ MODULE Medoids ------------------------------
(* k-medoids: every centre is a row.  A pass may move the centre of a        *)
(* cluster to a member (any of a sampled subset, or of all) with a smaller   *)
(* total distance to the members, and then assigns every row to a nearest    *)
(* centre.                                                                   *)
EXTENDS Lloyd, TLC
VARIABLES par,   \* P rows, D pairwise distances, slack of D, k, metric, full (all rows are candidates), tolN, tolD
          med,   \* cluster -> row that is its centre
          lab,   \* row -> cluster
          passes, done
mvars == <<par, med, lab, passes, done>>

Rows == 1..Len(par.P)
Members(f, c) == {i \in Rows : f[i] = c}
SumOver(S, G(_)) == FoldLeft(LAMBDA acc, x : acc + G(x), 0, SetToSeq(S))

\* ------------------------------------------------------------- distances
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(x, lo, hi) == IF lo >= hi THEN lo
                      ELSE LET m == (lo + hi + 1) \div 2
                           IN IF m * m <= x THEN ISqrtIn(x, m, hi) ELSE ISqrtIn(x, lo, m - 1)
ISqrt(x) == ISqrtIn(x, 0, 46340)
SqDist(p, q) == SumTo(Len(p), LAMBDA j : (p[j] - q[j]) * (p[j] - q[j]))
TaxiDist(p, q) == SumTo(Len(p), LAMBDA j : Abs(p[j] - q[j]))
\* the Euclidean distance in hundredths, the cosine distance in thousandths, the others exact
DistOf(metric, p, q) ==
  CASE metric = "sqeucl" -> SqDist(p, q)
    [] metric = "taxi" -> TaxiDist(p, q)
    [] metric = "eucl" -> ISqrt(10000 * SqDist(p, q))
    [] metric = "cos" -> LET x == Dot(p, q) IN 1000 - Sgn(x) * ISqrt((1000000 * x * x) \div (Dot(p, p) * Dot(q, q)))
SlackOf(metric) == IF metric = "eucl" THEN 1 ELSE IF metric = "cos" THEN 2 ELSE 0
Table(metric, P) == TLCEval([i \in 1..Len(P) |-> TLCEval([j \in 1..Len(P) |-> DistOf(metric, P[i], P[j])])])

\* row i is at least as near to row a as to row b, exactly
AsNear(i, a, b) ==
  CASE par.metric \in {"eucl", "sqeucl"} -> SqDist(par.P[i], par.P[a]) <= SqDist(par.P[i], par.P[b])
    [] par.metric = "taxi" -> TaxiDist(par.P[i], par.P[a]) <= TaxiDist(par.P[i], par.P[b])
    [] par.metric = "cos" -> NearerCos(par.P[i], [s |-> par.P[a], n |-> 1], [s |-> par.P[b], n |-> 1])
NearestLabels(m, f) == \A i \in Rows : f[i] \in 1..par.k /\ \A c \in 1..par.k : AsNear(i, m[f[i]], m[c])

\* ----------------------------------------------------------------- a pass
Energy(x, M) == SumOver(M, LAMBDA y : par.D[y][x])
Slack(M) == par.slack * 2 * Cardinality(M)
Same(x, y) == par.P[x] = par.P[y]
\* x may become the centre of a cluster with members M whose centre was old
MayMove(old, x, M) ==
  /\ x \in M /\ Energy(x, M) <= Energy(old, M) + Slack(M)
  /\ par.full => \A y \in M : Energy(x, M) <= Energy(y, M) + Slack(M)
MayStay(old, M) == par.full => \A y \in M : Energy(old, M) <= Energy(y, M) + Slack(M)
MedStep(new) ==
  \A c \in 1..par.k : LET M == Members(lab, c)
                      IN IF M = {} THEN Same(new[c], med[c])
                         ELSE IF Same(new[c], med[c]) THEN MayStay(med[c], M)
                         ELSE MayMove(med[c], new[c], M)
Changed(f) == Cardinality({i \in Rows : f[i] # lab[i]})
StopRule(f) == Changed(f) = 0 \/ Changed(f) * par.tolD <= par.tolN * Len(par.P)
Effect(new, f) == /\ med' = new /\ lab' = f /\ passes' = passes + 1 /\ done' = StopRule(f) /\ UNCHANGED par

\* ------------------------------------------------------------- invariants
TotalOf(m, f) == SumTo(Len(par.P), LAMBDA i : par.D[i][m[f[i]]])
IsRow == \A c \in 1..par.k : med[c] \in Rows
AssignedNearest == NearestLabels(med, lab)
\* a cluster that has rows has its centre among them
OwnCentre == \A c \in 1..par.k :
   Members(lab, c) # {} => \/ \E i \in Members(lab, c) : Same(i, med[c])
                           \/ par.metric = "cos" /\ \E e \in 1..par.k : e # c /\ AsNear(med[c], med[e], med[c])
NeverWorse == [][TotalOf(med', lab') <= TotalOf(med, lab) + 4 * par.slack * Len(par.P)]_mvars
\* a run that ended because nothing changed cannot be improved by one move
LocalOptimum == (done /\ par.full /\ par.tolN = 0) =>
   \A c \in 1..par.k : LET M == Members(lab, c) IN \A y \in M : Energy(med[c], M) <= Energy(y, M) + Slack(M)
=============================================================================
