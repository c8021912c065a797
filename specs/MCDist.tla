------------------------------- MODULE MCDist -------------------------------
(* Dist on all small 1-D instances, with the simpler description beside it:  *)
(* the state of KMeans is carried along and every global pass must be one of *)
(* its actions.                                                              *)
EXTENDS Dist
CONSTANTS NR, K, R, Limit, TolN, TolD
MCInit ==
  /\ \E P \in [1..NR -> {<<x>> : x \in 0..R}], C \in [1..K -> {<<x>> : x \in 0..R}] :
       /\ \A c \in 1..(K - 1) : C[c][1] <= C[c + 1][1]
       /\ LET i == [P |-> P, W |-> [r \in 1..NR |-> 1], k |-> K, d |-> 1, metric |-> "eucl",
                    tolN |-> TolN, tolD |-> TolD, limit |-> Limit]
              c == [x \in 1..K |-> [s |-> C[x], n |-> 1]]
          IN DStart(i, c) /\ Start(i, c, [r \in 1..NR |-> 0])
\* the pass of KMeans happens when the last owner has assigned its rows
Shadow ==
  IF \E m \in 1..Limit : Complete(m)' /\ ~Complete(m)
  THEN LET m == CHOOSE x \in 1..Limit : Complete(x)' /\ ~Complete(x) IN Pass(labh'[m]) /\ pass' = m
  ELSE UNCHANGED kvars
Step == \/ \E p \in Procs : \E new \in [Mine(p) -> 1..K] : Assign(p, [i \in 1..N |-> IF i \in Mine(p) THEN new[i] ELSE 0])
        \/ \E p \in Procs : Reduce(p)
        \/ Gather
MCNext == (Step /\ Shadow) \/ (Finished /\ UNCHANGED <<dvars, kvars>>)
MCSpec == MCInit /\ [][MCNext]_<<dvars, kvars>> /\ WF_<<dvars, kvars>>(Step /\ Shadow)
Ends == <>Finished
RootIsKMeans == Finished => /\ result = lab /\ cenp[Root] = cen /\ done_[Root] = pass
                            /\ (done \/ pass = Limit)
=============================================================================
