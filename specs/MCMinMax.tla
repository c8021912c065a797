------------------------------ MODULE MCMinMax ------------------------------
(* The parallel form: every thread finds the bounds of its rows, the         *)
(* coordinator merges them, every thread scales its rows in place.  Bug:     *)
(* "zero" starts the maxima at 0, "own" scales with the thread's own bounds, *)
(* "early" lets a thread scale before all have found their bounds.           *)
EXTENDS MinMax, FiniteSets, TLC
CONSTANTS N, T, Below, Hi, Bug
Big == 1000
VARIABLES X0, X, own, bounds, g, pc
vars == <<X0, X, own, bounds, g, pc>>
Threads == 1..T
Init == /\ X0 \in [1..N -> (-Below)..Hi] /\ X = X0
        /\ own \in [1..N -> Threads] /\ \A i \in 1..(N-1) : own[i] <= own[i+1]
        /\ bounds = [t \in Threads |-> <<Big, IF Bug = "zero" THEN 0 ELSE -Big>>]
        /\ g = <<Big, IF Bug = "zero" THEN 0 ELSE -Big>>
        /\ pc = [t \in Threads |-> "bounds"]
Mine(t) == {X[i] : i \in {q \in 1..N : own[q] = t}}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Bounds(t) == /\ pc[t] = "bounds" /\ pc' = [pc EXCEPT ![t] = "wait"]
             /\ bounds' = [bounds EXCEPT ![t] = <<Least(Mine(t) \cup {@[1]}), Greatest(Mine(t) \cup {@[2]})>>]
             /\ UNCHANGED <<X0, X, own, g>>
Merge == /\ IF Bug = "early" THEN \E t \in Threads : pc[t] = "wait" ELSE \A t \in Threads : pc[t] = "wait"
         /\ LET m == <<Least({bounds[t][1] : t \in Threads} \cup {g[1]}), Greatest({bounds[t][2] : t \in Threads} \cup {g[2]})>>
            IN g' = m /\ bounds' = [t \in Threads |-> IF Bug = "own" THEN bounds[t] ELSE m]
         /\ pc' = [t \in Threads |-> "scale"] /\ UNCHANGED <<X0, X, own>>
Fact == 12
Scale(t) == /\ pc[t] = "scale" /\ pc' = [pc EXCEPT ![t] = "done"]
            /\ X' = [i \in 1..N |-> IF own[i] = t THEN ScaledV(bounds[t][1], bounds[t][2] - bounds[t][1], Fact, X[i]) ELSE X[i]]
            /\ UNCHANGED <<X0, own, bounds, g>>
Next == Merge \/ \E t \in Threads : Bounds(t) \/ Scale(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllDone == \A t \in Threads : pc[t] = "done"
Right == AllDone => LET S == Scaled([i \in 1..N |-> <<X0[i]>>], Fact) IN \A i \in 1..N : X[i] = S[i][1]
Ends == <>AllDone
=============================================================================
