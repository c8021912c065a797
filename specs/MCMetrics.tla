----------------------------- MODULE MCMetrics -----------------------------
(* Lloyd passes in the plane under the three other metrics, as the engines   *)
(* perform them: every row scans the centres and keeps the first strictly    *)
(* better one.  The scan must refine the assignment of KMeans, and the exact *)
(* comparisons of module Lloyd (which judge the recorded runs) must agree    *)
(* with independent definitions of the metrics: cosine by the angle (dot and *)
(* cross product), the other two by distances over a common denominator.     *)
EXTENDS KMeans
CONSTANTS N, K, Lo, Hi, Limit, MET, Bug
VARIABLES i, c, best, part      \* row, centre to look at, best so far, labels of this pass
mvars == <<kvars, i, c, best, part>>

Grid == {<<x, y>> : x \in Lo - 2 .. Hi - 2, y \in Lo - 2 .. Hi - 2}      \* cfg files know no negative numbers
Usable == IF MET = "cos" THEN Grid \ {<<0, 0>>} ELSE Grid

Init ==
  /\ \E P \in [1..N -> Usable], C \in [1..K -> Usable] :
       Start([P |-> P, W |-> [r \in 1..N |-> 1], k |-> K, d |-> 2, metric |-> MET, tolN |-> 0, tolD |-> 1, limit |-> Limit],
             [x \in 1..K |-> [s |-> C[x], n |-> 1]], [r \in 1..N |-> 0])
  /\ i = 1 /\ c = 2 /\ best = 1 /\ part = [r \in 1..N |-> 0]

NearerEither(met, p, a, b) ==
  CASE met \in {"eucl", "sqeucl"} -> NearerEucl(p, Bisector(a, b))
    [] met = "taxi" -> NearerTaxi(p, a, b)
    [] OTHER -> NearerCos(p, a, b)
\* what a faulty scan would compare
Wrong(p, a, b) ==
  CASE Bug = "othermetric" -> NearerEither(IF MET = "taxi" THEN "eucl" ELSE "taxi", p, a, b)
    [] Bug = "unnormalised" -> Dot(p, a.s) * b.n >= Dot(p, b.s) * a.n
    [] Bug = "nosign" -> Abs(Dot(p, Direction(a))) * Abs(Dot(p, Direction(a))) * Dot(Direction(b), Direction(b))
                           >= Abs(Dot(p, Direction(b))) * Abs(Dot(p, Direction(b))) * Dot(Direction(a), Direction(a))
    [] OTHER -> NearerEither(MET, p, a, b)
StrictlyBetter(p, a, b) == ~Wrong(p, b, a)

Running == ~done /\ pass < Limit /\ ~Undefined(inst, cen)
Look ==
  /\ Running /\ i <= N /\ c <= K
  /\ best' = IF StrictlyBetter(inst.P[i], cen[c], cen[best]) THEN c ELSE best
  /\ c' = c + 1 /\ UNCHANGED <<kvars, i, part>>
Settle ==
  /\ Running /\ i <= N /\ c > K
  /\ part' = [part EXCEPT ![i] = best]
  /\ i' = i + 1 /\ c' = 2 /\ best' = 1 /\ UNCHANGED kvars
EndPass ==
  /\ Running /\ i > N
  /\ lab' = part
  /\ cen' = Means(inst.P, inst.W, part, K, 2)
  /\ pass' = pass + 1
  /\ changed' = Changed(inst, lab, part, pass = 0)
  /\ done' = StopRule(inst, changed')
  /\ i' = 1 /\ c' = 2 /\ best' = 1 /\ part' = [r \in 1..N |-> 0]
  /\ UNCHANGED inst
Next == Look \/ Settle \/ EndPass
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

\* ---------------------------------------------------------------- oracles
Sq(x) == x * x
DistEucl(p, a) == Sq(p[1] * a.n - a.s[1]) + Sq(p[2] * a.n - a.s[2])      \* times a.n^2
DistTaxi(p, a) == Abs(p[1] * a.n - a.s[1]) + Abs(p[2] * a.n - a.s[2])    \* times a.n
CrossAbs(p, a) == Abs(p[1] * a.s[2] - p[2] * a.s[1])
Inner(p, a) == p[1] * a.s[1] + p[2] * a.s[2]
\* the angle of p and a is at most that of p and b: the cotangent Inner/CrossAbs falls on (0, pi)
AngleAtMost(p, a, b) ==
  CASE CrossAbs(p, a) = 0 /\ Inner(p, a) > 0 -> TRUE
    [] CrossAbs(p, b) = 0 /\ Inner(p, b) < 0 -> TRUE
    [] CrossAbs(p, a) = 0 /\ Inner(p, a) < 0 -> FALSE
    [] CrossAbs(p, b) = 0 /\ Inner(p, b) > 0 -> FALSE
    [] OTHER -> Inner(p, a) * CrossAbs(p, b) >= Inner(p, b) * CrossAbs(p, a)
AtMost(p, a, b) ==
  CASE MET \in {"eucl", "sqeucl"} -> DistEucl(p, a) * Sq(b.n) <= DistEucl(p, b) * Sq(a.n)
    [] MET = "taxi" -> DistTaxi(p, a) * b.n <= DistTaxi(p, b) * a.n
    [] OTHER -> AngleAtMost(p, a, b)

\* ------------------------------------------------------------- properties
\* every assigned row is at a nearest centre, by the independent definition
NearestSoFar == Running => \A r \in 1..N : part[r] # 0 => \A x \in 1..K : AtMost(inst.P[r], cen[part[r]], cen[x])
\* the exact comparisons agree with the definitions
Agree == Running => \A r \in 1..N, x, y \in 1..K : NearerEither(MET, inst.P[r], cen[x], cen[y]) <=> AtMost(inst.P[r], cen[x], cen[y])
\* a pass is a pass of KMeans
Refines == [][(pass' # pass) => Pass(lab')]_kvars
\* among equals the first centre wins, so the outcome is a function
FirstWins == Running => \A r \in 1..N : part[r] # 0 => \A x \in 1..part[r] - 1 : ~AtMost(inst.P[r], cen[x], cen[part[r]])
\* only the direction of a row counts for the cosine
ScaleFree == (MET = "cos" /\ Running) => \A r \in 1..N, x, y \in 1..K :
   LET q == <<2 * inst.P[r][1], 2 * inst.P[r][2]>> IN NearerCos(q, cen[x], cen[y]) <=> NearerCos(inst.P[r], cen[x], cen[y])
Ends == <>(done \/ pass = Limit \/ Undefined(inst, cen))
=============================================================================
