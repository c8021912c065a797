----------------------------- MODULE MCMedoids -----------------------------
(* All small instances of Medoids; the code's strict improvement and         *)
(* lowest-index rule for equal distances.                                    *)
EXTENDS Medoids
CONSTANTS N, R, K, Metrics, Full, TolN, TolD, Bug
MCInit ==
  \E X \in [1..N -> 0..R] : \E m \in Metrics :
    /\ \A i \in 1..(N-1) : X[i] <= X[i+1]
    /\ LET P == [i \in 1..N |-> <<X[i]>>]
       IN par = [P |-> P, D |-> Table(m, P), slack |-> SlackOf(m), k |-> K, metric |-> m, full |-> Full, tolN |-> TolN, tolD |-> TolD]
    /\ med \in [1..K -> 1..N]
    /\ lab = [i \in 1..N |-> 0] /\ passes = 0 /\ done = FALSE
First(m) == [i \in Rows |-> CHOOSE c \in 1..K : /\ \A e \in 1..K : AsNear(i, m[c], m[e])
                                                /\ \A e \in 1..(c-1) : ~AsNear(i, m[e], m[c])]
Begin == passes = 0 /\ lab' = First(med) /\ passes' = 1 /\ UNCHANGED <<par, med, done>>
\* wrong variants: "worse" takes any member, "stale" does not assign again
\* the sampled rows of cluster c
Options(c) ==
  LET M == Members(lab, c)
      B == IF Bug = "worse" THEN M ELSE {x \in M : Energy(x, M) < Energy(med[c], M)}
      Best(S) == {x \in S : \A y \in S : Energy(x, M) <= Energy(y, M)}
  IN IF par.full THEN (IF B = {} THEN {med[c]} ELSE Best(B)) ELSE {med[c]} \cup B
Step == /\ passes > 0 /\ ~done
        /\ \E new \in [1..K -> Rows] : (\A c \in 1..K : new[c] \in Options(c)) /\ Effect(new, IF Bug = "stale" THEN lab ELSE First(new))
MCNext == Begin \/ Step
MCSpec == MCInit /\ [][MCNext]_mvars /\ WF_mvars(MCNext)
Placed == passes = 0 \/ (AssignedNearest /\ OwnCentre /\ IsRow)
Never == [][passes = 0 \/ TotalOf(med', lab') <= TotalOf(med, lab) + 4 * par.slack * N]_mvars
StepAllowed == [][passes = 0 \/ MedStep(med')]_mvars
Ends == <>done
=============================================================================
