-------------------------------- MODULE Dist --------------------------------
(* Distributed k-means: NP processes own contiguous blocks of rows, assign   *)
(* them, exchange sums, counts and changes in an all-reduce per pass, decide *)
(* on their own whether to go on, and at the end send their labels to the    *)
(* root, which receives from the processes in turn.  A process may be one    *)
(* collective ahead of another.  Property: what the root holds at the end is *)
(* a result of KMeans on the whole data set, every process holds the same    *)
(* centres after the same pass, and nobody waits for ever.                   *)
EXTENDS KMeans
CONSTANTS NP,      \* processes
          Delta,   \* TRUE: contributions are changes to running sums (pruned engine); FALSE: whole sums
          Bug      \* "none" or a wrong variant

Procs == 0..(NP - 1)
Root == 0

VARIABLES
  in,      \* the instance (constant)
  start,   \* initial centres
  pc,      \* process -> "assign", "reduce", "gather", "end"
  done_,   \* process -> passes finished
  cenp,    \* process -> its centres
  sums,    \* process -> running sums and counts per cluster (Delta)
  labh,    \* pass -> row -> label, as assigned by the owner of the row (0: not yet)
  offer,   \* pass -> process -> what it put into the all-reduce (<<>>: nothing yet)
  result,  \* labels gathered by the root
  turn     \* the process whose labels the root receives next
dvars == <<in, start, pc, done_, cenp, sums, labh, offer, result, turn>>

N == Len(in.P)
Share == N \div NP
Lo(p) == p * Share + 1
Hi(p) == IF p = NP - 1 THEN N ELSE (p + 1) * Share
Mine(p) == Lo(p)..Hi(p)

ZeroSums == [c \in 1..in.k |-> [n |-> 0, s |-> [j \in 1..in.d |-> 0]]]
Add(a, b) == [c \in 1..in.k |-> [n |-> a[c].n + b[c].n, s |-> [j \in 1..in.d |-> a[c].s[j] + b[c].s[j]]]]
Neg(a) == [c \in 1..in.k |-> [n |-> -a[c].n, s |-> [j \in 1..in.d |-> -a[c].s[j]]]]
SumsOf(rows, l) ==
  [c \in 1..in.k |-> [n |-> Cardinality({i \in rows : l[i] = c}),
                      s |-> [j \in 1..in.d |-> SumTo(N, LAMBDA i : IF i \in rows /\ l[i] = c THEN in.P[i][j] ELSE 0)]]]
CentresOf(t) == [c \in 1..in.k |-> IF t[c].n = 0 THEN Zero(in.d) ELSE Rat(t[c].s, t[c].n)]

Old(p) == IF done_[p] = 0 THEN [i \in 1..N |-> 0] ELSE labh[done_[p]]

\* new: labels of the rows of p
Assign(p, new) ==
  /\ pc[p] = "assign"
  /\ LET m == done_[p] + 1
         bis == Bisectors(cenp[p])
         mine == SumsOf(Mine(p), new)
         ch == Cardinality({i \in Mine(p) : new[i] # Old(p)[i]})
     IN /\ \A i \in Mine(p) : Nearest(in.metric, in.P[i], new[i], cenp[p], bis)
        /\ labh' = [labh EXCEPT ![m] = [i \in 1..N |-> IF i \in Mine(p) THEN new[i] ELSE @[i]]]
        /\ offer' = [offer EXCEPT ![m][p] =
             [t |-> IF Delta THEN (IF Bug = "prevtwice" /\ m > 1 THEN Add(sums[p], Add(mine, Neg(SumsOf(Mine(p), Old(p)))))
                                   ELSE Add(mine, Neg(SumsOf(Mine(p), Old(p)))))
                    ELSE mine,
              ch |-> ch]]
  /\ pc' = [pc EXCEPT ![p] = "reduce"]
  /\ UNCHANGED <<in, start, done_, cenp, sums, result, turn>>

RECURSIVE Total(_, _)
Total(m, p) == IF p < 0 THEN [t |-> ZeroSums, ch |-> 0]
               ELSE LET r == Total(m, p - 1) IN [t |-> Add(r.t, offer[m][p].t), ch |-> r.ch + offer[m][p].ch]

\* the all-reduce of pass m is over once everybody has contributed
Reduce(p) ==
  /\ pc[p] = "reduce"
  /\ LET m == done_[p] + 1
     IN /\ \A q \in Procs : offer[m][q] # <<>>
        /\ LET all == Total(m, NP - 1)
               t == IF Delta THEN Add(sums[p], all.t) ELSE all.t
               ch == IF Bug = "localstop" THEN offer[m][p].ch ELSE all.ch
           IN /\ sums' = [sums EXCEPT ![p] = t]
              /\ cenp' = [cenp EXCEPT ![p] = CentresOf(t)]
              /\ done_' = [done_ EXCEPT ![p] = m]
              /\ pc' = [pc EXCEPT ![p] = IF StopRule(in, ch) \/ m = in.limit THEN "gather" ELSE "assign"]
  /\ UNCHANGED <<in, start, labh, offer, result, turn>>

\* the root takes its own rows, then receives from 1, 2, ... (synchronous sends)
Gather ==
  /\ pc[Root] = "gather"
  /\ IF turn = NP
     THEN /\ pc' = [pc EXCEPT ![Root] = "end"] /\ UNCHANGED <<result, turn>>
     ELSE /\ turn = Root \/ pc[turn] = "gather"
          /\ LET last == IF Bug = "tail" /\ turn = NP - 1 THEN (turn + 1) * Share ELSE Hi(turn)
             IN result' = [i \in 1..N |-> IF i \in Lo(turn)..last THEN Old(turn)[i] ELSE result[i]]
          /\ turn' = turn + 1
          /\ pc' = IF turn = Root THEN pc ELSE [pc EXCEPT ![turn] = "end"]
  /\ UNCHANGED <<in, start, done_, cenp, sums, labh, offer>>

DStart(i, c) ==
  /\ in = i /\ start = c
  /\ pc = [p \in Procs |-> IF i.limit = 0 THEN "gather" ELSE "assign"]
  /\ done_ = [p \in Procs |-> 0]
  /\ cenp = [p \in Procs |-> c]
  /\ sums = [p \in Procs |-> [x \in 1..i.k |-> [n |-> 0, s |-> [j \in 1..i.d |-> 0]]]]
  /\ labh = [m \in 1..i.limit |-> [r \in 1..Len(i.P) |-> 0]]
  /\ offer = [m \in 1..i.limit |-> [p \in Procs |-> <<>>]]
  /\ result = [r \in 1..Len(i.P) |-> 0] /\ turn = 0

\* ---------------------------------------------------------------- properties
Complete(m) == \A i \in 1..N : labh[m][i] # 0
CenAfter(m) == IF m = 0 THEN start ELSE Means(in.P, in.W, labh[m], in.k, in.d)
\* every completed pass is a pass of KMeans
LloydPasses == \A m \in 1..in.limit : Complete(m) => IsAssignment(in, CenAfter(m - 1), labh[m])
\* processes that finished the same number of passes hold the same, right centres
Agreement == \A p \in Procs : cenp[p] = CenAfter(done_[p])
Finished == \A p \in Procs : pc[p] = "end"
ChangedIn(m) == Changed(in, IF m = 1 THEN labh[1] ELSE labh[m - 1], labh[m], m = 1)
ResultRight ==
  Finished => LET m == done_[Root] IN
     /\ \A p \in Procs : done_[p] = m
     /\ result = IF m = 0 THEN [i \in 1..N |-> 0] ELSE labh[m]
     /\ m = in.limit \/ StopRule(in, ChangedIn(m))
     /\ \A e \in 1..(m - 1) : ~StopRule(in, ChangedIn(e))
=============================================================================
