----------------------------- MODULE MiniBatch -----------------------------
(* Mini-batch k-means.  A batch gives every sampled row the label of a       *)
(* nearest centre; then, in row order, the centre of each sampled row moves  *)
(* towards it by 1/N of the way, N the number of rows that bear the centre's *)
(* label after the batch (rows of earlier batches keep theirs).  After the   *)
(* last batch every row, sampled or not, gets a nearest centre.              *)
(* Centres are intervals <<lo, hi>> per coordinate, in integer units.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
SumI(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
CeilDiv(a, b) == -((-a) \div b)

\* one interval after moving towards x by 1/n
Toward(iv, x, n) == <<iv[1] + (x - iv[1]) \div n, iv[2] + CeilDiv(x - iv[2], n)>>
\* the centre cs (a sequence of intervals) after the rows of P numbered by rows
Walk(cs, P, rows, n) == FoldLeft(LAMBDA c, i : TLCEval([j \in 1..Len(c) |-> Toward(c[j], P[i][j], n)]), cs, rows)

P2(P) == TLCEval([i \in 1..Len(P) |-> i])
\* P rows, S the sampled rows, lab the labels after the batch: the centres after it
Batch(P, C, S, lab) ==
  [c \in 1..Len(C) |->
     LET mine == TLCEval(SelectSeq(P2(P), LAMBDA i : i \in S /\ lab[i] = c))
         n == Cardinality({i \in 1..Len(P) : lab[i] = c})
     IN IF mine = <<>> THEN C[c] ELSE Walk(C[c], P, mine, n)]
Point(c) == [j \in 1..Len(c) |-> <<c[j], c[j]>>]

\* squared or taxicab distance of a row and a centre, as an interval
Coord(x, iv) == <<IF x < iv[1] THEN iv[1] - x ELSE IF x > iv[2] THEN x - iv[2] ELSE 0, MaxI(AbsI(x - iv[1]), AbsI(x - iv[2]))>>
Away(taxi, p, c) ==
  LET D == [j \in 1..Len(p) |-> Coord(p[j], c[j])]
  IN IF taxi THEN <<SumI([j \in 1..Len(p) |-> D[j][1]]), SumI([j \in 1..Len(p) |-> D[j][2]])>>
     ELSE <<SumI([j \in 1..Len(p) |-> D[j][1] * D[j][1]]), SumI([j \in 1..Len(p) |-> D[j][2] * D[j][2]])>>
\* the centres of which none is certainly farther than another
NearestOf(taxi, p, C) ==
  LET ds == TLCEval([c \in 1..Len(C) |-> Away(taxi, p, C[c])])
  IN {c \in 1..Len(C) : \A e \in 1..Len(C) : ds[c][1] <= ds[e][2]}
=============================================================================
