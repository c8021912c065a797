------------------------------- MODULE Matrix -------------------------------
(* Dense matrices and the vector and matrix helpers.  A matrix is a record   *)
(* [r, c, m] with m a sequence of rows of integers; everything is exact.     *)
EXTENDS Integers, Sequences, FiniteSets
SumTo(n, f(_)) == LET RECURSIVE S(_)
                      S(j) == IF j = 0 THEN 0 ELSE f(j) + S(j - 1)
                  IN S(n)
Mat(r, c, f(_, _)) == [r |-> r, c |-> c, m |-> [i \in 1..r |-> [j \in 1..c |-> f(i, j)]]]
Zero(r, c) == Mat(r, c, LAMBDA i, j : 0)
Empty == [r |-> 0, c |-> 0, m |-> <<>>]
Rect(r, c, flat) == Mat(r, c, LAMBDA i, j : flat[(i - 1) * c + j])
Add(a, b) == Mat(a.r, a.c, LAMBDA i, j : a.m[i][j] + b.m[i][j])
Sub(a, b) == Mat(a.r, a.c, LAMBDA i, j : a.m[i][j] - b.m[i][j])
Mul(a, b) == Mat(a.r, b.c, LAMBDA i, j : SumTo(a.c, LAMBDA q : a.m[i][q] * b.m[q][j]))
Trans(a) == Mat(a.c, a.r, LAMBDA i, j : a.m[j][i])
Dot(u, v) == SumTo(Len(u), LAMBDA j : u[j] * v[j])
VecMat(v, a) == [j \in 1..a.c |-> SumTo(a.r, LAMBDA i : v[i] * a.m[i][j])]
\* axis "rows": one sum per row, "cols": one per column
RowSums(a) == [i \in 1..a.r |-> SumTo(a.c, LAMBDA j : a.m[i][j])]
ColSums(a) == [j \in 1..a.c |-> SumTo(a.r, LAMBDA i : a.m[i][j])]
Total(a) == SumTo(a.r, LAMBDA i : RowSums(a)[i])
Squares(a) == SumTo(a.r, LAMBDA i : Dot(a.m[i], a.m[i]))
\* first index of the largest element of a non-empty sequence
ArgMax(s) == CHOOSE i \in 1..Len(s) : (\A j \in 1..Len(s) : s[j] <= s[i]) /\ \A j \in 1..(i - 1) : s[j] < s[i]
RowArgMax(a) == [i \in 1..a.r |-> ArgMax(a.m[i])]
ColArgMax(a) == RowArgMax(Trans(a))
PowInt(x, e) == LET RECURSIVE P(_)
                    P(q) == IF q = 0 THEN 1 ELSE x * P(q - 1)
                IN P(e)
\* the matrix without row p and column q
Minor(a, p, q) == Mat(a.r - 1, a.c - 1, LAMBDA i, j : a.m[IF i < p THEN i ELSE i + 1][IF j < q THEN j ELSE j + 1])
Sign(n) == IF n % 2 = 0 THEN 1 ELSE -1
RECURSIVE Det(_)
Det(a) == IF a.r = 0 THEN 1
          ELSE IF a.r = 1 THEN a.m[1][1]
          ELSE SumTo(a.c, LAMBDA j : Sign(j + 1) * a.m[1][j] * Det(Minor(a, 1, j)))
\* adjugate: transposed matrix of cofactors; A * Adj(A) = Det(A) * I
Adj(a) == Mat(a.r, a.c, LAMBDA i, j : Sign(i + j) * Det(Minor(a, j, i)))
=============================================================================
