-------------------------------- MODULE Work --------------------------------
(* Giving out the rows of one pass: every thread owns a range of rows, the   *)
(* ranges partition 0..n-1, and each thread's queue hands out tasks that     *)
(* partition its range; a reset hands out the same work again.  A task or    *)
(* range is [from, n].                                                       *)
EXTENDS Integers, Sequences, FiniteSets
Upto(x) == x.from + x.n
Disjoint(x, y) == x.n = 0 \/ y.n = 0 \/ Upto(x) <= y.from \/ Upto(y) <= x.from
Inside(x, y) == x.from >= y.from /\ Upto(x) <= Upto(y)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s).n + Total(Tail(s))
\* pieces partition r: inside, pairwise disjoint, total length equal
Partitions(s, r) ==
  /\ \A i \in DOMAIN s : Inside(s[i], r)
  /\ \A i, j \in DOMAIN s : i < j => Disjoint(s[i], s[j])
  /\ Total(s) = r.n
\* may x be handed out next, the tasks s being out already?
MayGive(s, x, r) == x.n > 0 /\ Inside(x, r) /\ \A i \in DOMAIN s : Disjoint(s[i], x)
=============================================================================
