---------------------------- MODULE MCMiniBatch ----------------------------
(* Every 1-D instance with N rows in 0..R (times U), K start centres, every  *)
(* choice of samples for up to Batches batches, with the best distance kept  *)
(* per row as the implementation does.                                       *)
EXTENDS MiniBatch
CONSTANTS N, R, K, U, Batches, Bug
VARIABLES X, C, lab, best, pc, done, last, moved
vars == <<X, C, lab, best, pc, done, last, moved>>
Inf == 100000000
Rows == 1..N
MCInit == /\ X \in [Rows -> 0..R] /\ C \in [1..K -> {<<x * U, x * U>> : x \in 0..R}]
          /\ lab = [i \in Rows |-> 0] /\ best = [i \in Rows |-> Inf] /\ pc = "run" /\ done = 0 /\ last = C /\ moved = {}
Row(i) == <<X[i] * U>>
Far(i, c) == Away(TRUE, Row(i), <<C[c]>>)[1]
\* first strictly nearer centre, starting from the remembered distance
Scan(i, b0, l0) == FoldLeft(LAMBDA st, c : IF Far(i, c) < st[1] THEN <<Far(i, c), c>> ELSE st, <<b0, l0>>, [c \in 1..K |-> c])
BatchStep ==
  /\ pc = "run" /\ done < Batches
  /\ \E S \in SUBSET Rows :
       LET sc == [i \in Rows |-> IF i \in S THEN Scan(i, best[i], lab[i]) ELSE <<best[i], lab[i]>>]
           l2 == [i \in Rows |-> sc[i][2]]
           cnt(c) == IF Bug = "rate" THEN Cardinality({i \in S : l2[i] = c}) - 1 ELSE Cardinality({i \in Rows : l2[i] = c})
           new == IF Bug = "rate"
                  THEN [c \in 1..K |-> LET mine == {i \in S : l2[i] = c}
                                       IN IF Cardinality(mine) < 2 THEN C[c]
                                          ELSE <<SumI([i \in Rows |-> IF i \in mine THEN X[i] * U ELSE 0]) \div cnt(c),
                                                 SumI([i \in Rows |-> IF i \in mine THEN X[i] * U ELSE 0]) \div cnt(c)>>]
                  ELSE [c \in 1..K |-> Batch([i \in Rows |-> Row(i)], [e \in 1..K |-> <<C[e]>>], S, l2)[c][1]]
       IN /\ lab' = l2 /\ C' = new
          /\ best' = IF Bug = "noreset" THEN [i \in Rows |-> sc[i][1]] ELSE [i \in Rows |-> Inf]
          /\ moved' = {l2[i] : i \in S}
  /\ last' = C /\ done' = done + 1 /\ UNCHANGED <<X, pc>>
Final == /\ pc = "run"
         /\ pc' = "done"
         /\ lab' = IF Bug = "nofinal" THEN lab ELSE [i \in Rows |-> Scan(i, best[i], lab[i])[2]]
         /\ UNCHANGED <<X, C, best, done, last, moved>>
MCNext == BatchStep \/ Final
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(Final)
Lo(c) == FoldLeft(LAMBDA a, i : MinI(a, X[i] * U), last[c][1], [i \in Rows |-> i])
Hi(c) == FoldLeft(LAMBDA a, i : MaxI(a, X[i] * U), last[c][2], [i \in Rows |-> i])
InHull == \A c \in 1..K : Lo(c) <= C[c][1] /\ C[c][2] <= Hi(c)
OnlySampledMove == \A c \in 1..K : (done > 0 /\ c \notin moved) => C[c] = last[c]
FinalNearest == pc = "done" => \A i \in Rows : lab[i] \in 1..K /\ lab[i] \in NearestOf(TRUE, Row(i), [c \in 1..K |-> <<C[c]>>])
Narrow == \A c \in 1..K : C[c][2] - C[c][1] <= N
Finishes == <>(pc = "done")
=============================================================================
