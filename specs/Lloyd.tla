------------------------------- MODULE Lloyd -------------------------------
(* Exact arithmetic of Lloyd's algorithm over integer points.  A centre is a *)
(* rational vector [s |-> integer vector, n |-> positive integer] meaning    *)
(* s/n, kept in lowest terms.  TLC integers are 32 bit, so the comparison of *)
(* two distances works on the sign of a sum of products split at 2^10.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* sum over the indices 1..m of F(i)
SumTo(m, F(_)) == FoldLeft(LAMBDA acc, x : acc + x, 0, [i \in 1..m |-> F(i)])

Zero(d) == [s |-> [j \in 1..d |-> 0], n |-> 1]

\* s/n in lowest terms
Rat(s, n) ==
  LET g == FoldLeft(LAMBDA acc, x : Gcd(acc, Abs(x)), n, s)
  IN [s |-> [j \in 1..Len(s) |-> IF s[j] < 0 THEN -(Abs(s[j]) \div g) ELSE s[j] \div g], n |-> n \div g]

IsZero(c) == \A j \in 1..Len(c.s) : c.s[j] = 0

\* sign of Sum_j A[j]*B[j] without leaving 32 bits (|A[j]| < 2^19, |B[j]| < 2^28 / 2^10)
SignDot(A, B) ==
  LET m == Len(A)
      X == SumTo(m, LAMBDA j : A[j] * (B[j] \div 1024))
      Y == SumTo(m, LAMBDA j : A[j] * (B[j] % 1024))
      q == X + (Y \div 1024)
      r == Y % 1024
  IN IF q # 0 THEN (IF q > 0 THEN 1 ELSE -1) ELSE (IF r > 0 THEN 1 ELSE 0)

\* What the comparison of centres a and b needs that does not depend on the point:
\* |p-a|^2 - |p-b|^2 = (b-a) . (2p - a - b), scaled by (a.n * b.n)^2
Bisector(a, b) ==
  [A |-> [j \in 1..Len(a.s) |-> b.s[j] * a.n - a.s[j] * b.n],
   C |-> [j \in 1..Len(a.s) |-> b.s[j] * a.n + a.s[j] * b.n],
   N |-> 2 * a.n * b.n]

\* |p - a| <= |p - b| in the Euclidean norm
NearerEucl(p, bis) ==
  SignDot(bis.A, [j \in 1..Len(p) |-> p[j] * bis.N - bis.C[j]]) <= 0

\* taxicab distance of p and a, times a.n
TaxiN(p, a) == SumTo(Len(p), LAMBDA j : Abs(p[j] * a.n - a.s[j]))
NearerTaxi(p, a, b) == TaxiN(p, a) * b.n <= TaxiN(p, b) * a.n

\* cosine: only the direction of a centre counts
Direction(a) == LET g == FoldLeft(LAMBDA acc, x : Gcd(acc, Abs(x)), 0, a.s)
                IN [j \in 1..Len(a.s) |-> IF a.s[j] < 0 THEN -(Abs(a.s[j]) \div g) ELSE a.s[j] \div g]
Dot(u, v) == SumTo(Len(u), LAMBDA j : u[j] * v[j])
NearerCos(p, a, b) ==
  LET u == Direction(a)  v == Direction(b)
      x == Dot(p, u)  y == Dot(p, v)
      \* compare x/|u| >= y/|v|
  IN IF Sgn(x) # Sgn(y) THEN x >= y
     ELSE Sgn(x) * x * x * Dot(v, v) >= Sgn(y) * y * y * Dot(u, u)

Bisectors(cen) == [c \in DOMAIN cen |-> [e \in DOMAIN cen |-> Bisector(cen[c], cen[e])]]

\* centre c is at minimal distance from p among cen
Nearest(metric, p, c, cen, bis) ==
  \A e \in DOMAIN cen : e # c =>
     CASE metric \in {"eucl", "sqeucl"} -> NearerEucl(p, bis[c][e])
       [] metric = "taxi" -> NearerTaxi(p, cen[c], cen[e])
       [] metric = "cos" -> NearerCos(p, cen[c], cen[e])

\* members of cluster c: total weight and weighted sum (W[i] rows equal P[i])
WeightOf(W, lab, c) == SumTo(Len(lab), LAMBDA i : IF lab[i] = c THEN W[i] ELSE 0)
SumOf(P, W, lab, c, d) ==
  [j \in 1..d |-> SumTo(Len(lab), LAMBDA i : IF lab[i] = c THEN W[i] * P[i][j] ELSE 0)]

\* The centre of the rows labelled c; a cluster without rows gets the zero vector.
MeanOf(P, W, lab, c, d) ==
  LET w == WeightOf(W, lab, c)
  IN IF w = 0 THEN Zero(d) ELSE Rat(SumOf(P, W, lab, c, d), w)

Means(P, W, lab, k, d) == [c \in 1..k |-> MeanOf(P, W, lab, c, d)]
=============================================================================
