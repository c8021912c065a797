------------------------------- MODULE MCWork -------------------------------
(* Range split and task queue as implemented (coordinator::get_rid_len_tup,  *)
(* task_queue), all row counts and thread counts in a small scope.           *)
EXTENDS Work, TLC
CONSTANTS MaxN, MaxT, Min, Bug
VARIABLES n, T, ranges, cur, has, out, passes
vars == <<n, T, ranges, cur, has, out, passes>>
RangeOf(t) ==      \* t in 0..T-1
  LET per == n \div T  extra == IF t = T - 1 /\ Bug # "droprest" THEN n % T ELSE 0
  IN [from |-> t * per, n |-> per + extra]
Init == /\ n \in 1..MaxN /\ T \in 1..MaxT /\ T <= n
        /\ ranges = [t \in 1..T |-> RangeOf(t - 1)]
        /\ cur = [t \in 1..T |-> 0] /\ has = [t \in 1..T |-> TRUE]
        /\ out = [t \in 1..T |-> <<>>] /\ passes = 0
Take(t) ==
  /\ has[t]
  /\ LET r == ranges[t]
         small == cur[t] + Min < (IF Bug = "lastrow" THEN r.n + 1 ELSE r.n - 1)
         x == [from |-> r.from + cur[t], n |-> IF small THEN Min ELSE r.n - cur[t]]
     IN /\ out' = [out EXCEPT ![t] = Append(@, x)]
        /\ cur' = [cur EXCEPT ![t] = IF small THEN @ + Min ELSE r.n - 1]
        /\ has' = [has EXCEPT ![t] = small]
  /\ UNCHANGED <<n, T, ranges, passes>>
Reset == /\ \A t \in 1..T : ~has[t] /\ passes < 1
         /\ cur' = [t \in 1..T |-> IF Bug = "stale" THEN cur[t] ELSE 0] /\ has' = [t \in 1..T |-> TRUE]
         /\ out' = [t \in 1..T |-> <<>>] /\ passes' = passes + 1 /\ UNCHANGED <<n, T, ranges>>
Next == Reset \/ \E t \in 1..T : Take(t)
Spec == Init /\ [][Next]_vars
All == [from |-> 0, n |-> n]
RangesOk == Partitions(ranges, All)
\* every task handed out is non-empty, inside, disjoint from the others of its thread
GivenOk == \A t \in 1..T : \A i \in DOMAIN out[t] : MayGive(SubSeq(out[t], 1, i - 1), out[t][i], ranges[t])
DoneOk == \A t \in 1..T : ~has[t] => Partitions(out[t], ranges[t])
=============================================================================
