---------------------------- MODULE PrunedKMeans ----------------------------
(* The pruned engine as implemented: per row an upper bound ub on the        *)
(* distance to its own centre, inflated by the drift of that centre, compared*)
(* with half the distances between centres.  1-D, exact: positions are       *)
(* scaled by 24, so centres of up to 4 rows and half distances are integers. *)
(* Claim (C02): every pass is a pass of Lloyd's algorithm (KMeans!Pass).     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS N, K, R, Limit, Bug
ASSUME N <= 4
Q == 24
Big == 1000000
Abs(x) == IF x < 0 THEN -x ELSE x

VARIABLES P,     \* rows (scaled)
          cen,   \* centres (scaled)
          from,  \* the centres the last pass started from
          drift, \* distance each centre moved in the last update
          lab, ub, sums, cnts, pass, skips,
          stopped
pvars == <<P, cen, from, drift, lab, ub, sums, cnts, pass, skips, stopped>>

Rows == 1..N
Cl == 1..K
Half(c, a, b) == IF a = b THEN Big
                 ELSE IF Bug = "nothalved" THEN Abs(c[a] - c[b]) ELSE Abs(c[a] - c[b]) \div 2
SVal(c, a) == LET S == {Half(c, a, b) : b \in Cl} IN CHOOSE x \in S : \A y \in S : x <= y

\* first pass: plain scan, strictly smaller distance wins
RECURSIVE Scan(_, _, _, _)
Scan(p, c, u, k) ==   \* <<bound, label>> after clusters 1..k
  IF k = 0 THEN <<Big, 0>>
  ELSE LET r == Scan(p, c, u, k - 1)  dd == Abs(p - c[k])
       IN IF dd < r[1] THEN <<dd, k>> ELSE r

\* later passes: u = bound, a = label, rec = bound is exact
RECURSIVE Loop(_, _, _, _, _, _, _)
Loop(p, c, u, a, rec, k, sk) ==
  IF k > K THEN <<u, a, sk>>
  ELSE IF u <= Half(c, a, k) THEN Loop(p, c, u, a, rec, k + 1, sk + 1)
  ELSE LET v == IF rec THEN u ELSE Abs(p - c[a])
       IN IF v <= Half(c, a, k) THEN Loop(p, c, v, a, TRUE, k + 1, sk + 1)
          ELSE LET dd == Abs(p - c[k])
               IN IF dd < v THEN Loop(p, c, dd, k, TRUE, k + 1, sk)
                  ELSE Loop(p, c, v, a, TRUE, k + 1, sk)

RowStep(i) ==
  IF pass = 0 THEN LET r == Scan(P[i], cen, 0, K) IN <<r[1], r[2], 0>>
  ELSE LET u == ub[i] + (IF Bug = "nodrift" THEN 0 ELSE drift[lab[i]])
       IN IF u <= SVal(cen, lab[i]) THEN <<IF Bug = "boundlost" THEN ub[i] ELSE u, lab[i], K>>
          ELSE Loop(P[i], cen, u, lab[i], FALSE, 1, 0)

SumRows(S, f(_)) == FoldLeft(LAMBDA a, x : a + x, 0, [i \in 1..N |-> IF i \in S THEN f(i) ELSE 0])

Init ==
  /\ P \in [Rows -> {Q * x : x \in 0..R}]
  /\ cen \in [Cl -> {Q * x : x \in 0..R}]
  /\ from = cen /\ drift = [c \in Cl |-> 0] /\ lab = [i \in Rows |-> 0] /\ ub = [i \in Rows |-> Big]
  /\ sums = [c \in Cl |-> 0] /\ cnts = [c \in Cl |-> 0] /\ pass = 0 /\ skips = 0 /\ stopped = FALSE

Pass ==
  /\ pass < Limit /\ ~stopped
  /\ LET st == [i \in Rows |-> RowStep(i)]
         nl == [i \in Rows |-> st[i][2]]
         \* incremental accumulators: only rows that moved are touched after the first pass
         ns == [c \in Cl |-> IF pass = 0 THEN SumRows({i \in Rows : nl[i] = c}, LAMBDA i : P[i])
                ELSE sums[c] + SumRows({i \in Rows : nl[i] = c /\ lab[i] # c}, LAMBDA i : P[i])
                     - (IF Bug = "noremove" THEN 0 ELSE SumRows({i \in Rows : nl[i] # c /\ lab[i] = c}, LAMBDA i : P[i]))]
         nc == [c \in Cl |-> IF pass = 0 THEN Cardinality({i \in Rows : nl[i] = c})
                ELSE cnts[c] + Cardinality({i \in Rows : nl[i] = c /\ lab[i] # c})
                     - Cardinality({i \in Rows : nl[i] # c /\ lab[i] = c})]
         cn == [c \in Cl |-> IF nc[c] = 0 THEN 0 ELSE ns[c] \div nc[c]]
         prev == [c \in Cl |-> IF Bug = "firstdrift" /\ pass = 0 THEN 0 ELSE cen[c]]
     IN /\ lab' = nl /\ ub' = [i \in Rows |-> st[i][1]]
        /\ sums' = ns /\ cnts' = nc /\ cen' = cn /\ from' = cen
        /\ drift' = [c \in Cl |-> Abs(cn[c] - prev[c])]
        /\ pass' = pass + 1
        /\ skips' = SumRows(Rows, LAMBDA i : st[i][3])
        /\ UNCHANGED P
        /\ stopped' = (nl = lab)
Spec == Init /\ [][Pass]_pvars

\* The refinement: the pass assigned every row to a nearest centre ...
Lloyd == pass > 0 => \A i \in Rows : \A c \in Cl : Abs(P[i] - from[lab[i]]) <= Abs(P[i] - from[c])
\* ... and the centres are the means (zero when empty)
TrueMeans == pass > 0 => \A c \in Cl :
   LET S == {i \in Rows : lab[i] = c}
   IN cnts[c] = Cardinality(S) /\ (IF S = {} THEN cen[c] = 0 ELSE cen[c] * Cardinality(S) = SumRows(S, LAMBDA i : P[i]))
\* the induction behind it
BoundSound == pass > 0 => \A i \in Rows : Abs(P[i] - from[lab[i]]) <= ub[i]
\* reachability: some row is skipped entirely in some pass (checked to be violated)
NeverSkips == skips = 0
=============================================================================
