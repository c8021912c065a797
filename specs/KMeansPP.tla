------------------------------ MODULE KMeansPP ------------------------------
(* kmeans++ initialisation and its repetition.  One start chooses k rows one *)
(* after the other; a further row is drawn with a weight that is its distance*)
(* to the nearest centre chosen so far.  Several starts keep the one whose   *)
(* total distance is smallest; the first of equals wins.                     *)
EXTENDS Lloyd

RECURSIVE IsqrtFrom(_, _)
IsqrtFrom(n, x) == LET y == (x + (n \div x)) \div 2 IN IF y >= x THEN x ELSE IsqrtFrom(n, y)
Isqrt(n) == IF n = 0 THEN 0 ELSE IsqrtFrom(n, 65536)      \* floor of the square root, n < 2^31

SqDist(p, q) == SumTo(Len(p), LAMBDA j : (p[j] - q[j]) * (p[j] - q[j]))
\* distance times F, rounded down (exact but for the Euclidean norm)
DistFx(metric, F, p, q) ==
  CASE metric = "eucl" -> Isqrt(F * F * SqDist(p, q))
    [] metric = "sqeucl" -> F * SqDist(p, q)
    [] metric = "taxi" -> F * SumTo(Len(p), LAMBDA j : Abs(p[j] - q[j]))

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* weight of row i when the rows in the sequence ch are the centres so far
Weight(metric, F, P, ch, i) == MinOf({DistFx(metric, F, P[i], P[ch[x]]) : x \in 1..Len(ch)})
\* the row may be drawn next
Drawable(metric, F, P, ch, i) ==
  IF ch = <<>> THEN TRUE
  ELSE Weight(metric, F, P, ch, i) > 0 \/ \A q \in 1..Len(P) : Weight(metric, F, P, ch, q) = 0
Energy(metric, F, P, ch) == SumTo(Len(P), LAMBDA i : Weight(metric, F, P, ch, i))
\* a labelling by a nearest chosen row
NearLab(metric, F, P, ch, lab) ==
  \A i \in 1..Len(P) : lab[i] \in 1..Len(ch) /\ DistFx(metric, F, P[i], P[ch[lab[i]]]) = Weight(metric, F, P, ch, i)

\* ------------------------------------------------------------ the machine
VARIABLES P, ch, best, hist
ppvars == <<P, ch, best, hist>>
CONSTANTS N, K, R, S, MET
PPInit == /\ P \in [1..N -> {<<x>> : x \in 0..R}]
          /\ \A i \in 1..(N - 1) : P[i][1] <= P[i+1][1]
          /\ ch = <<>> /\ hist = <<>>
          /\ best = [start |-> 0, e |-> 0, ch |-> <<>>]
Draw == /\ Len(ch) < K /\ Len(hist) < S
        /\ \E i \in 1..N : Drawable(MET, 1, P, ch, i) /\ ch' = Append(ch, i)
        /\ UNCHANGED <<P, best, hist>>
EndStart == /\ Len(ch) = K
            /\ LET e == Energy(MET, 1, P, ch)
               IN /\ hist' = Append(hist, e)
                  /\ best' = IF best.start = 0 \/ e < best.e
                             THEN [start |-> Len(hist) + 1, e |-> e, ch |-> ch] ELSE best
            /\ ch' = <<>> /\ UNCHANGED P
PPNext == Draw \/ EndStart
PPSpec == PPInit /\ [][PPNext]_ppvars

\* The kept start is the first of the smallest totals, its centres give that total.
BestIsLeast == best.start > 0 =>
  /\ best.e = hist[best.start] /\ best.e = Energy(MET, 1, P, best.ch)
  /\ \A x \in 1..Len(hist) : hist[x] >= best.e /\ (x < best.start => hist[x] > best.e)
\* A centre coincides with an earlier one only if every row does.
Distinct == \A x, y \in 1..Len(ch) : (x < y /\ P[ch[x]] = P[ch[y]]) =>
               Cardinality({P[i] : i \in 1..N}) < y
\* No more energy than with fewer centres.
Falls == \A x \in 1..Len(ch) : Energy(MET, 1, P, SubSeq(ch, 1, x)) <= Energy(MET, 1, P, SubSeq(ch, 1, 1))
NeverWorse == [][best.start > 0 => best'.e <= best.e]_ppvars
=============================================================================
