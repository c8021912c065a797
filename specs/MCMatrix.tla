------------------------------ MODULE MCMatrix ------------------------------
(* Determinant and adjugate as implemented: cofactors are compacted into a   *)
(* work area of the full row length, whose remainder still holds older       *)
(* values.  Compared with the definition (sum over all permutations) and     *)
(* with A * adj(A) = det(A) * I for every matrix of the given size.          *)
(* Bug "sign": cofactor signs do not alternate; "stride": the work area is   *)
(* written with the size of the cofactor instead of its row length;          *)
(* "notrans": the cofactors are not transposed.                              *)
EXTENDS Matrix, TLC
CONSTANTS N, Lo, Hi, Bug
VARIABLES a, res
vars == <<a, res>>
Vals == (0 - Lo)..Hi
\* work areas are flat sequences of N * N cells
Cof(A, p, q, n) ==
  LET RECURSIVE Fill(_, _, _, _)
      \* row, col are 0-based; t = <<i, j, cells>>
      Fill(row, col, t, dummy) ==
        IF row = n THEN t[3]
        ELSE LET keep == row # p /\ col # q
                 w == IF keep THEN [t[3] EXCEPT ![t[1] * (IF Bug = "stride" THEN n - 1 ELSE N) + t[2] + 1] = A[row * N + col + 1]] ELSE t[3]
                 j1 == IF keep THEN t[2] + 1 ELSE t[2]
                 i2 == IF keep /\ j1 = n - 1 THEN t[1] + 1 ELSE t[1]
                 j2 == IF keep /\ j1 = n - 1 THEN 0 ELSE j1
             IN IF col + 1 = n THEN Fill(row + 1, 0, <<i2, j2, w>>, 0) ELSE Fill(row, col + 1, <<i2, j2, w>>, 0)
  IN Fill(0, 0, <<0, 0, [x \in 1..(N * N) |-> 77]>>, 0)
RECURSIVE CDet(_, _)
CDet(A, n) ==
  IF n = 1 THEN A[1]
  ELSE SumTo(n, LAMBDA f : (IF Bug = "sign" THEN 1 ELSE Sign(f + 1)) * A[f] *
             CDet(Cof(A, 0, f - 1, n), n - 1))
CAdj(A) == IF N = 1 THEN <<1>>
           ELSE [x \in 1..(N * N) |->
                 LET j == (x - 1) \div N   i == (x - 1) % N
                     p == IF Bug = "notrans" THEN j ELSE i
                     q == IF Bug = "notrans" THEN i ELSE j
                 IN (IF Bug = "adjsign" THEN 1 ELSE Sign(i + j)) * CDet(Cof(A, p, q, N), N - 1)]
Perms == {f \in [1..N -> 1..N] : \A i, j \in 1..N : f[i] = f[j] => i = j}
Inversions(f) == Cardinality({p \in (1..N) \X (1..N) : p[1] < p[2] /\ f[p[1]] > f[p[2]]})
RECURSIVE SumSet(_, _)
Prod(A, f) == LET RECURSIVE P(_)
                  P(i) == IF i = 0 THEN 1 ELSE A[(i - 1) * N + f[i]] * P(i - 1)
              IN P(N)
SumSet(S, A) == IF S = {} THEN 0 ELSE LET f == CHOOSE f \in S : TRUE IN Sign(Inversions(f)) * Prod(A, f) + SumSet(S \ {f}, A)
Leibniz(A) == SumSet(Perms, A)
Init == a \in [1..(N * N) -> Vals] /\ res = <<>>
Next == res = <<>> /\ res' = <<CDet(a, N), CAdj(a)>> /\ a' = a
Spec == Init /\ [][Next]_vars
M == Rect(N, N, a)
DetOk == res # <<>> => res[1] = Leibniz(a) /\ res[1] = Det(M)
AdjOk == res # <<>> => LET A == Rect(N, N, res[2]) IN
           A = Adj(M) /\ Mul(M, A) = Mat(N, N, LAMBDA i, j : IF i = j THEN Leibniz(a) ELSE 0)
=============================================================================
