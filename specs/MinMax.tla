------------------------------- MODULE MinMax -------------------------------
(* Linear scaling of every feature to 0..L; a constant feature becomes 0.    *)
(* L is a multiple of every feature's range, so the result stays integer.    *)
EXTENDS Integers, Sequences
Column(P, j) == {P[i][j] : i \in 1..Len(P)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : y <= x
RangeOf(P, j) == Greatest(Column(P, j)) - Least(Column(P, j))
Whole(P, L) == \A j \in 1..Len(P[1]) : RangeOf(P, j) > 0 => L % RangeOf(P, j) = 0
ScaledV(lo, r, L, v) == IF r = 0 THEN 0 ELSE (v - lo) * (L \div r)
Scaled(P, L) ==
  LET lo == [j \in 1..Len(P[1]) |-> Least(Column(P, j))]
      r == [j \in 1..Len(P[1]) |-> RangeOf(P, j)]
  IN IF ~Whole(P, L) THEN CHOOSE x \in {} : TRUE
     ELSE [i \in 1..Len(P) |-> [j \in 1..Len(P[1]) |-> ScaledV(lo[j], r[j], L, P[i][j])]]
=============================================================================
