------------------------------ MODULE MCKMeans ------------------------------
(* Exhaustive check of KMeans on all small instances (1-D, weight-1 groups). *)
EXTENDS KMeans
CONSTANTS N, K, R, Limit, Tols, MET
ASSUME N <= 4
TolsC == {<<0, 1>>, <<1, 4>>, <<1, 2>>}
Tols1 == {<<0, 1>>}

MCInit ==
  \E P \in [1..N -> {<<x>> : x \in 0..R}], C \in [1..K -> {<<x>> : x \in 0..R}], t \in Tols :
    Start([P |-> P, W |-> [i \in 1..N |-> 1], k |-> K, d |-> 1, metric |-> MET,
           tolN |-> t[1], tolD |-> t[2], limit |-> Limit],
          [c \in 1..K |-> [s |-> C[c], n |-> 1]], [i \in 1..N |-> 0])
MCNext == \E new \in [1..N -> 1..K] : Pass(new)
MCSpec == MCInit /\ [][MCNext]_kvars /\ WF_kvars(MCNext)

\* 12 * sum of squared distances to the own centre (cluster sizes divide 12)
E12(l, c) == SumTo(N, LAMBDA i : LET q == c[l[i]]  dd == (12 \div q.n) * q.s[1] - 12 * inst.P[i][1] IN dd * dd)
NonEmpty(l) == \A c \in 1..K : \E i \in 1..N : l[i] = c

TypeOK == pass \in 0..Limit /\ (pass > 0 => \A i \in 1..N : lab[i] \in 1..K)
CountsSum == pass > 0 => SumTo(K, LAMBDA c : WeightOf(inst.W, lab, c)) = N
\* The energy does not grow while no cluster is empty (Euclidean).
EnergyDown == [][(pass > 0 /\ NonEmpty(lab) /\ NonEmpty(lab')) => E12(lab', cen') <= E12(lab, cen)]_kvars
\* A pass that changed nothing leaves a fixed point: the same labels are again an outcome.
FixPoint == (done /\ changed = 0) => IsAssignment(inst, cen, lab)
\* Not vacuous / no premature stop: stopping means the rule holds
StopOnlyByRule == done => (changed = 0 \/ changed * inst.tolD <= inst.tolN * N)
Ends == <>(done \/ pass = Limit)
=============================================================================
