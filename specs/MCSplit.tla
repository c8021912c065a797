------------------------------ MODULE MCSplit ------------------------------
(* The criteria of SplitScore on all small instances and splits: decisions   *)
(* depend on neither the unit nor the origin nor the order of the children,  *)
(* rows spread like a normal distribution are never split by g-means, two    *)
(* distant clumps always are, stricter tests keep fewer splits.              *)
EXTENDS SplitScore
CONSTANTS N, R, Bug
VARIABLES X, S, strict
vars == <<X, S, strict>>
Rows == 1..N
P(Y) == [i \in 1..Len(Y) |-> <<Y[i]>>]
MeanOf1(Y, Z) == IF Z = {} THEN [s |-> <<0>>, n |-> 1]
                 ELSE [s |-> <<SSum([i \in 1..Len(Y) |-> IF i \in Z THEN Y[i] ELSE 0])>>, n |-> Cardinality(Z)]
Bic(metric, Y, L, M) == BicDecision(metric, 1, P(Y), L, M, <<MeanOf1(Y, L), MeanOf1(Y, M)>>, Bug)
Ad(Y, L, M, s) == AdDecisionAt(1, P(Y), L, M, s, IF Bug = "parts" THEN 1 ELSE Len(Y))
Init == /\ X \in {f \in [Rows -> 0..R] : \A i \in 1..(N-1) : f[i] <= f[i+1]}
        /\ S = {} /\ strict = 0
\* the order of the children plays no role (OrderFree), so row 1 is in the second one
Next == S = {} /\ strict = 0 /\ S' \in SUBSET (Rows \ {1}) /\ strict' \in 0..4 /\ UNCHANGED X
Spec == Init /\ [][Next]_vars
Agree(a, b) == ~({a, b} = {"keep", "undo"})
Affine(Y, a, b) == [i \in 1..Len(Y) |-> a * Y[i] + b]
Rest == Rows \ S
UnitFree == \A a \in {7, 100}, m \in {"eucl", "taxi", "sqeucl"} : Agree(Bic(m, X, S, Rest), Bic(m, Affine(X, a, 0), S, Rest))
OriginFree == \A m \in {"eucl", "taxi", "sqeucl"} : Agree(Bic(m, X, S, Rest), Bic(m, Affine(X, 1, 50), S, Rest))
OrderFree == Agree(Bic("eucl", X, S, Rest), Bic("eucl", X, Rest, S)) /\ Agree(Ad(X, S, Rest, strict), Ad(X, Rest, S, strict))
AdUnitFree == Agree(Ad(X, S, Rest, strict), Ad(Affine(X, 13, -7), S, Rest, strict))
NoEmptyChild == (S = {} \/ Rest = {}) => Bic("eucl", X, S, Rest) = "undo" /\ Ad(X, S, Rest, strict) = "undo"
Stricter == strict > 0 => ~(Ad(X, S, Rest, strict) = "keep" /\ Ad(X, S, Rest, strict - 1) = "undo")
\* the quantiles of a normal distribution, and two clumps
Quantiles == <<-1834, -1318, -1010, -776, -579, -403, -238, -79, 79, 238, 403, 579, 776, 1010, 1318, 1834>>
Clumps == [i \in 1..24 |-> IF i <= 12 THEN (i % 3) ELSE 1000 + (i % 3)]
Once == S = {} /\ \A i \in Rows : X[i] = 0
NormalStays == Once => Ad(Quantiles, 1..8, 9..16, strict) = "undo"
ClumpsPart == Once => Ad(Clumps, 1..12, 13..24, strict) = "keep" /\ Bic("eucl", Clumps, 1..12, 13..24) = "keep"
\* the fixed-point functions themselves
LnOk == Once => \A x \in {1, 2, 3, 5, 10, 100, 1000, 12345, 1000000} :
           /\ SAbs(Ln(2 * x) - Ln(x) - 2839) <= LnErr
           /\ \A y \in {3, 7, 11} : SAbs(Ln(x * y) - Ln(x) - Ln(y)) <= 3 * LnErr
LpOk == Once => \A y \in {-20000, -9000, -4096, -100, 0, 77, 4096, 12000} : Lp(y) >= Lp(y + 64) /\ Lp(0) = 11357
=============================================================================
