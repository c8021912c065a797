----------------------------- MODULE SplitScore -----------------------------
(* When a split into two children is kept.  x-means keeps it unless the      *)
(* parent has the larger Bayesian information criterion, with the variance   *)
(* of the rows around the centres of their last pass; g-means keeps it if the rows, *)
(* projected on the line through the children's means, differ from a normal  *)
(* distribution by the Anderson-Darling test for their number.               *)
(* Numbers are fixed point; every score is an interval [lo, hi] that         *)
(* contains the exact value, so a decision is "keep", "undo" or "free".    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
LU == 4096                                    \* unit of logarithms
SAbs(x) == IF x < 0 THEN -x ELSE x
SSum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
SMax(s) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, 0, s)
RECURSIVE SRootIn(_, _, _)
SRootIn(x, lo, hi) == IF lo >= hi THEN lo
                      ELSE LET mid == (lo + hi + 1) \div 2
                           IN IF mid * mid <= x THEN SRootIn(x, mid, hi) ELSE SRootIn(x, lo, mid - 1)
SRoot(x) == SRootIn(x, 0, 46340)

\* log2 of x > 0 in 1/4096, within 8 units: normalise to [2^14, 2^15), then one bit per squaring
RECURSIVE Shift(_, _)
Shift(m, e) == IF m < 16384 THEN Shift(2 * m, e - 1) ELSE IF m >= 32768 THEN Shift(m \div 2, e + 1) ELSE <<m, e>>
Log2(x) == LET ne == Shift(x, 14)
           IN FoldLeft(LAMBDA st, i : LET q == (st[1] * st[1]) \div 16384
                                      IN IF q >= 32768 THEN <<q \div 2, 2 * st[2] + 1>> ELSE <<q, 2 * st[2]>>,
                       <<ne[1], ne[2]>>, [i \in 1..12 |-> i])[2]
Ln(x) == (Log2(x) * 2839) \div 4096           \* in units of 1/LU
LnErr == 12                                   \* bound of its error

\* ------------------------------------------------------------------ x-means
RECURSIVE Halvings(_, _)
Halvings(x, most) == IF x <= most THEN 0 ELSE 1 + Halvings(x \div 2, most)
\* numbers m 2^e with m below 2^29
RECURSIVE FNorm(_, _)
FNorm(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m < 268435456 THEN FNorm(2 * m, e - 1)
               ELSE IF m >= 536870912 THEN FNorm(m \div 2, e + 1) ELSE <<m, e>>
FAdd(a, b, up) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
                  ELSE LET x == IF a[2] >= b[2] THEN a ELSE b
                           y == IF a[2] >= b[2] THEN b ELSE a
                           sh == x[2] - y[2]
                       IN <<x[1] + (IF sh > 29 THEN 0 ELSE y[1] \div (2 ^ sh)) + up, x[2]>>
LnF(f) == Ln(f[1]) + (f[2] * 28392) \div 10
\* squared distance of a row from the centre c = [s, n], times n squared
Squared(metric, p, c) ==
  LET D == TLCEval([j \in 1..Len(p) |-> SAbs(c.n * p[j] - c.s[j])])
  IN IF metric = "taxi" THEN SSum(D) * SSum(D) ELSE SSum([j \in 1..Len(p) |-> D[j] * D[j]])
\* sum over the rows S of their squared distances from c, as <<lo, hi>>
SumSquares(metric, X, S, c) ==
  LET q == TLCEval([i \in 1..Len(X) |-> IF i \in S THEN Squared(metric, X[i], c) ELSE 0])
      sh == Halvings(SMax(q), 1073741824 \div (Cardinality(S) + 1))
      t == SSum([i \in 1..Len(X) |-> q[i] \div (2 ^ sh)])
      lo == FNorm(t, sh)
      hi == IF sh = 0 THEN lo ELSE FNorm(t + Cardinality(S), sh)
  IN <<IF lo[1] = 0 THEN lo ELSE <<lo[1] \div (c.n * c.n), lo[2]>>,
       IF hi[1] = 0 THEN hi ELSE <<hi[1] \div (c.n * c.n) + 1, hi[2]>>>>
\* logarithm of a / b; an exact zero may come out as a rounding residue
LnRatio(a, b) == IF a[2][1] = 0 THEN <<-(10 ^ 6), -25 * LU>>
                 ELSE <<IF a[1][1] = 0 THEN -(10 ^ 6) ELSE LnF(a[1]) - Ln(b) - 2 * LnErr - 8, LnF(a[2]) - Ln(b) + 2 * LnErr + 8>>

\* the difference of the children's and the parent's score, as <<lo, hi>> in units of 1/LU
\* L, R rows of the children; used their centres when the rows were assigned
BicDiff(metric, d, X, L, R, used, variant) ==
  LET N == Cardinality(L) + Cardinality(R)
      m == TLCEval([s |-> [j \in 1..d |-> SSum([i \in 1..Len(X) |-> IF i \in L \cup R THEN X[i][j] ELSE 0])], n |-> N])
      psum == TLCEval(SumSquares(metric, X, L \cup R, m))
      sL == TLCEval(SumSquares(metric, X, L, used[1]))
      sR == TLCEval(SumSquares(metric, X, R, used[2]))
      lp == LnRatio(psum, N - 1)
      lc == LnRatio(<<FAdd(sL[1], sR[1], 0), FAdd(sL[2], sR[2], 1)>>, N - 2)
      H(x) == x * Ln(x)
      a == Cardinality(L)
      b == Cardinality(R)
      \* the wrong variant scores each child as if it had all rows of the parent
      wc == IF variant = "whole" THEN 2 * N ELSE N
      const == (IF variant = "whole" THEN (N - a) * Ln(N) + (N - b) * Ln(N) - H(N) + H(N) ELSE H(a) + H(b) - H(N))
               + (3 * LU) \div 2 - ((d + 1) * Ln(N)) \div 2
      slack == 3 * N * LnErr + 3 * (d + 1) * LnErr + 8
      half(x) == x \div 2
  IN <<const + half(d * (N * lp[1] - wc * lc[2])) - slack, const + half(d * (N * lp[2] - wc * lc[1])) + slack>>
BicDecision(metric, d, X, L, R, used, variant) ==
  IF L = {} \/ R = {} \/ Cardinality(L \cup R) <= 2 THEN "undo"   \* no cluster, or the children cannot be scored
  ELSE LET D == TLCEval(BicDiff(metric, d, X, L, R, used, variant))
       IN IF D[1] > 0 THEN "keep" ELSE IF D[2] < 0 THEN "undo" ELSE "close"

\* ------------------------------------------------------------------ g-means
\* -ln of the standard normal distribution at -7, -7 + 1/64, ..., 7, in units of 1/16384
PU == 16384
NegLnPhi == <<
  448664, 446839, 445018, 443201, 441387, 439578, 437772, 435970, 434172, 432379, 430589, 428803, 427021, 425242, 423468, 421698,
  419932, 418169, 416411, 414656, 412905, 411158, 409416, 407677, 405942, 404211, 402483, 400760, 399041, 397325, 395614, 393906,
  392203, 390503, 388807, 387115, 385427, 383743, 382063, 380387, 378714, 377046, 375381, 373721, 372064, 370411, 368762, 367117,
  365476, 363839, 362206, 360577, 358951, 357330, 355712, 354099, 352489, 350883, 349281, 347683, 346089, 344499, 342912, 341330,
  339751, 338177, 336606, 335039, 333476, 331917, 330362, 328811, 327264, 325720, 324181, 322645, 321113, 319586, 318062, 316542,
  315025, 313513, 312005, 310501, 309000, 307503, 306011, 304522, 303037, 301556, 300079, 298605, 297136, 295670, 294209, 292751,
  291297, 289847, 288401, 286959, 285521, 284086, 282656, 281229, 279807, 278388, 276973, 275562, 274155, 272751, 271352, 269956,
  268565, 267177, 265793, 264413, 263037, 261664, 260296, 258931, 257571, 256214, 254861, 253512, 252167, 250826, 249488, 248155,
  246825, 245499, 244177, 242859, 241545, 240235, 238928, 237625, 236327, 235032, 233741, 232454, 231170, 229891, 228615, 227344,
  226076, 224812, 223552, 222295, 221043, 219794, 218550, 217309, 216072, 214839, 213609, 212384, 211162, 209944, 208731, 207520,
  206314, 205112, 203913, 202719, 201528, 200341, 199158, 197978, 196803, 195631, 194463, 193299, 192139, 190983, 189830, 188682,
  187537, 186396, 185259, 184125, 182996, 181870, 180748, 179630, 178516, 177406, 176299, 175196, 174097, 173002, 171911, 170824,
  169740, 168660, 167584, 166512, 165443, 164379, 163318, 162261, 161208, 160158, 159113, 158071, 157033, 155999, 154969, 153942,
  152919, 151900, 150885, 149874, 148866, 147862, 146862, 145866, 144873, 143885, 142900, 141919, 140941, 139968, 138998, 138032,
  137070, 136111, 135156, 134206, 133258, 132315, 131375, 130439, 129507, 128579, 127654, 126734, 125817, 124903, 123994, 123088,
  122186, 121287, 120393, 119502, 118615, 117732, 116852, 115976, 115104, 114235, 113371, 112510, 111653, 110799, 109949, 109103,
  108261, 107422, 106587, 105756, 104929, 104105, 103285, 102469, 101656, 100847, 100042, 99240, 98442, 97648, 96858, 96071,
  95288, 94508, 93733, 92961, 92192, 91428, 90667, 89909, 89156, 88406, 87659, 86916, 86177, 85442, 84710, 83982,
  83258, 82537, 81820, 81106, 80396, 79690, 78987, 78288, 77593, 76901, 76213, 75529, 74848, 74171, 73497, 72827,
  72160, 71497, 70838, 70182, 69530, 68882, 68237, 67596, 66958, 66324, 65693, 65066, 64442, 63822, 63206, 62593,
  61984, 61378, 60776, 60177, 59582, 58990, 58402, 57817, 57236, 56659, 56085, 55514, 54947, 54384, 53824, 53267,
  52714, 52164, 51618, 51075, 50536, 50000, 49468, 48939, 48414, 47892, 47373, 46858, 46347, 45838, 45334, 44832,
  44334, 43840, 43348, 42861, 42376, 41895, 41417, 40943, 40472, 40005, 39540, 39080, 38622, 38168, 37717, 37269,
  36825, 36384, 35947, 35512, 35081, 34653, 34229, 33808, 33390, 32975, 32564, 32156, 31751, 31349, 30951, 30555,
  30163, 29774, 29389, 29006, 28627, 28251, 27878, 27508, 27142, 26778, 26418, 26061, 25707, 25356, 25008, 24663,
  24321, 23983, 23647, 23315, 22985, 22659, 22335, 22015, 21698, 21383, 21072, 20764, 20458, 20156, 19856, 19560,
  19266, 18975, 18688, 18403, 18121, 17842, 17566, 17292, 17022, 16754, 16490, 16228, 15968, 15712, 15458, 15208,
  14960, 14714, 14472, 14232, 13995, 13760, 13529, 13300, 13073, 12849, 12628, 12410, 12194, 11981, 11770, 11562,
  11357, 11154, 10953, 10755, 10560, 10367, 10176, 9988, 9803, 9620, 9439, 9261, 9085, 8911, 8740, 8571,
  8405, 8241, 8079, 7919, 7762, 7607, 7454, 7303, 7155, 7009, 6864, 6723, 6583, 6445, 6310, 6176,
  6045, 5915, 5788, 5663, 5540, 5418, 5299, 5182, 5066, 4953, 4841, 4732, 4624, 4518, 4414, 4311,
  4211, 4112, 4015, 3919, 3826, 3734, 3644, 3555, 3468, 3383, 3299, 3217, 3137, 3058, 2981, 2905,
  2830, 2758, 2686, 2616, 2548, 2480, 2415, 2350, 2287, 2226, 2165, 2106, 2048, 1992, 1936, 1882,
  1829, 1778, 1727, 1678, 1630, 1582, 1536, 1492, 1448, 1405, 1363, 1322, 1282, 1244, 1206, 1169,
  1133, 1098, 1064, 1030, 998, 966, 935, 905, 876, 848, 820, 793, 767, 742, 717, 693,
  670, 647, 625, 604, 583, 563, 543, 524, 506, 488, 471, 454, 437, 422, 406, 391,
  377, 363, 350, 337, 324, 312, 300, 289, 277, 267, 256, 246, 237, 228, 219, 210,
  202, 193, 186, 178, 171, 164, 157, 151, 144, 138, 133, 127, 122, 116, 111, 107,
  102, 98, 93, 89, 85, 82, 78, 74, 71, 68, 65, 62, 59, 56, 54, 51,
  49, 47, 44, 42, 40, 38, 37, 35, 33, 32, 30, 29, 27, 26, 25, 23,
  22, 21, 20, 19, 18, 17, 16, 15, 15, 14, 13, 12, 12, 11, 11, 10,
  9, 9, 8, 8, 8, 7, 7, 6, 6, 6, 5, 5, 5, 5, 4, 4,
  4, 4, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0>>
\* at y in 1/4096, linear between the points of the table
Lp(y0) == LET y == IF y0 < -28600 THEN -28600 ELSE IF y0 > 28600 THEN 28600 ELSE y0
              q == (y + 28672) \div 64
              r == (y + 28672) % 64
          IN NegLnPhi[q + 1] + ((NegLnPhi[q + 2] - NegLnPhi[q + 1]) * r) \div 64
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* a * U / b for 0 <= a <= b < 2^30, rounded down, U = 2^bits
Scaled(a, b, bits) ==
  FoldLeft(LAMBDA st, i : LET r == 2 * st[2] IN IF r >= b THEN <<2 * st[1] + 1, r - b>> ELSE <<2 * st[1], r>>,
           <<IF a = b THEN 1 ELSE 0, IF a = b THEN 0 ELSE a>>, [i \in 1..bits |-> i])[1]

\* deviations of the projected rows from their mean, scaled so that the squares stay small
Deviations(d, X, L, R) ==
  LET S(T, j) == SSum([i \in 1..Len(X) |-> IF i \in T THEN X[i][j] ELSE 0])
      v0 == TLCEval([j \in 1..d |-> S(L, j) * Cardinality(R) - S(R, j) * Cardinality(L)])
      g == FoldLeft(LAMBDA a, x : Gcd(SAbs(x), a), 0, v0)
      v == TLCEval([j \in 1..d |-> IF g = 0 THEN 0 ELSE v0[j] \div g])
      rows == SetToSeq(L \cup R)
      n == Len(rows)
      p == TLCEval([i \in 1..n |-> SSum([j \in 1..d |-> v[j] * X[rows[i]][j]])])
      tot == SSum(p)
      a == TLCEval([i \in 1..n |-> n * p[i] - tot])
      m == SMax([i \in 1..n |-> SAbs(a[i])])
      bits == IF n <= 31 THEN 13 ELSE 12
  IN IF m <= 4096 THEN a ELSE TLCEval([i \in 1..n |-> IF a[i] < 0 THEN -Scaled(-a[i], m, bits) ELSE Scaled(a[i], m, bits)])
\* the largest power of two k with k^2 s2 < 2^30
RECURSIVE Stretch(_, _)
Stretch(k, s2) == IF k < 16384 /\ s2 < 1073741824 \div (4 * k * k) THEN Stretch(2 * k, s2) ELSE k
\* the Anderson-Darling statistic of normalised deviations a, in units of 1/PU
AdStat(a0) ==
  LET a == TLCEval(SortSeq(a0, LAMBDA x, y : x < y))
      n == Len(a)
      s2 == SSum([i \in 1..n |-> a[i] * a[i]])
      k == Stretch(1, s2)
      rt == SRoot((k * k * s2) \div (n - 1))
      Y == TLCEval([i \in 1..n |-> (a[i] * k * 4096) \div rt])
  IN SSum([i \in 1..n |-> (2 * i - 1) * (Lp(Y[i]) + Lp(-Y[n + 1 - i]))]) \div n - n * PU
\* 1000 times the critical values for large samples
Crit == <<576, 656, 787, 918, 1092>>
\* crit / (1 + 4/n - 25/n^2) in units of 1/PU; below 4 rows the formula says nothing
CritAt(strict, n) == IF n < 4 THEN -PU ELSE (((Crit[strict + 1] * PU) \div 1000) * (n * n)) \div (n * n + 4 * n - 25)
\* m the number of rows the critical values are for: that of the partition, a wrong variant has another
AdDecisionAt(d, X, L, R, strict, m) ==
  LET n == Cardinality(L \cup R)
  IN IF n < 4 \/ L = {} \/ R = {} THEN "undo"
     ELSE LET a == TLCEval(Deviations(d, X, L, R))
              q == SSum([i \in 1..n |-> a[i] * a[i]])
          IN IF q = 0 THEN "free"
             ELSE LET A == TLCEval(AdStat(a))
                      e == (n * PU) \div 300 + PU \div 100
                      c == CritAt(strict, m)
                  IN IF A > c + e THEN "keep" ELSE IF A < c - e THEN "undo" ELSE "close"
AdDecision(d, X, L, R, strict) == AdDecisionAt(d, X, L, R, strict, Cardinality(L \cup R))
=============================================================================
