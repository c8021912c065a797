------------------------------ MODULE MCAccum ------------------------------
(* The representation used by libkcommon/clusters.cpp - one vector holding   *)
(* either the sum or the mean, a count and a flag - against Accum, for all   *)
(* operation sequences in a small scope (one coordinate).                    *)
EXTENDS Accum, TLC
CONSTANTS NA, K, Vals, MaxN, Bug
VARIABLES A,      \* the meaning
          C       \* the representation: [n, num, den, fin], value num/den
vars == <<A, C>>
Op1(op, a, c, v) == [op |-> op, a |-> a, c |-> c, c2 |-> 1, b |-> 1, v |-> v]
Z == [n |-> 0, num |-> 0, den |-> 1, fin |-> FALSE]
Init == A = [a \in 1..NA |-> [c \in 1..K |-> Empty(1)]] /\ C = [a \in 1..NA |-> [c \in 1..K |-> Z]]
\* p/q + x/y
RAdd(r, num, den) == [r EXCEPT !.num = @ * den + num * r.den, !.den = @ * den]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Low(r) == LET g == Gcd(Abs(r.num), r.den)
          IN [r EXCEPT !.num = IF @ < 0 THEN -(Abs(@) \div g) ELSE @ \div g, !.den = @ \div g]
CFin(r) == IF r.fin /\ Bug # "divtwice" THEN r
           ELSE Low([r EXCEPT !.fin = TRUE, !.den = IF r.n > 1 THEN @ * r.n ELSE @])
CUnfin(r) == IF ~r.fin THEN r
             ELSE Low([r EXCEPT !.fin = FALSE, !.num = IF r.n < (IF Bug = "unfin3" THEN 3 ELSE 2) THEN @ ELSE @ * r.n])
CClear(r) == [Z EXCEPT !.fin = IF Bug = "keepflag" THEN r.fin ELSE FALSE]
CPut(r, v, s) == Low([RAdd(r, s * v, 1) EXCEPT !.n = @ + s])
Do(o) ==
  /\ Legal(A, o, "plain")
  /\ A' = [A EXCEPT ![o.a] = Meaning(A, o, 1)]
  /\ C' = [C EXCEPT ![o.a] =
       CASE o.op = "add" -> [@ EXCEPT ![o.c] = CPut(@, o.v[1], 1)]
         [] o.op = "rem" -> [@ EXCEPT ![o.c] = CPut(@, o.v[1], -1)]
         [] o.op = "swap" -> LET y == [@ EXCEPT ![o.c] = CPut(@, o.v[1], -1)]
                             IN [y EXCEPT ![o.c2] = IF Bug = "swapcount" THEN Low(RAdd(@, o.v[1], 1)) ELSE CPut(@, o.v[1], 1)]
         [] o.op = "peq" -> [c \in 1..K |-> Low([RAdd(@[c], C[o.b][c].num, C[o.b][c].den) EXCEPT !.n = @ + C[o.b][c].n])]
         [] o.op = "fin" -> [@ EXCEPT ![o.c] = CFin(@)]
         [] o.op = "unfin" -> [@ EXCEPT ![o.c] = CUnfin(@)]
         [] o.op = "clear" -> [c \in 1..K |-> CClear(@[c])]]
Next == \E a \in 1..NA, c \in 1..K, v \in Vals :
          \/ \E op \in {"add", "rem", "fin", "unfin", "clear"} : Do(Op1(op, a, c, <<v>>))
          \/ \E c2 \in 1..K : Do([Op1("swap", a, c, <<v>>) EXCEPT !.c2 = c2])
          \/ NA = 2 /\ Do([Op1("peq", a, c, <<v>>) EXCEPT !.b = 3 - a])
Bounded == \A a \in 1..NA, c \in 1..K : A[a][c].n \in (-MaxN)..MaxN /\ A[a][c].s[1] \in (-2*MaxN)..(2*MaxN)
Spec == Init /\ [][Next]_vars
\* the representation means what it should: count, flag, and value * divisor = exact sum
Rep == \A a \in 1..NA, c \in 1..K :
         LET m == A[a][c]  r == C[a][c]
         IN r.n = m.n /\ r.fin = m.fin /\ r.num * Divisor(m) = m.s[1] * r.den
=============================================================================
