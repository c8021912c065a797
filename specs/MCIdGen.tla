------------------------------ MODULE MCIdGen ------------------------------
(* The id generator as implemented (a counter and a stack of reclaimed ids)  *)
(* never hands out zero or an id in use, for all orders of requests and      *)
(* reclaims; also produces those orders for replay (Emit).                   *)
EXTENDS IdFlags, TLC, Json, FiniteSetsExt
CONSTANTS D, Bug, Out
VARIABLES max, stack, live, hist, bad
vars == <<max, stack, live, hist, bad>>
Init == max = 0 /\ stack = <<>> /\ live = <<>> /\ hist = <<>> /\ bad = FALSE
Top == stack[Len(stack)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Pull(m, s) == IF Len(s) > 0 THEN [id |-> s[Len(s)], m |-> m, s |-> IF Bug = "peek" THEN s ELSE Pop(s)]
              ELSE IF Bug = "fromzero" THEN [id |-> m, m |-> m + 1, s |-> s] ELSE [id |-> m + 1, m |-> m + 1, s |-> s]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Get == LET x == Pull(max, stack)  y == Pull(x.m, x.s) IN
       /\ max' = y.m /\ stack' = y.s /\ live' = live \o <<x.id, y.id>>
       /\ bad' = (bad \/ ~MayHandOut(SetOf(live), x.id, y.id))
       /\ hist' = Append(hist, 0)
Rec(i) == /\ i \in 1..Len(live) /\ stack' = Append(stack, live[i])
          /\ live' = SubSeq(live, 1, i - 1) \o SubSeq(live, i + 1, Len(live))
          /\ hist' = Append(hist, i) /\ UNCHANGED <<max, bad>>
Next == Len(hist) < D /\ (Get \/ \E i \in 1..Len(live) : Rec(i))
Spec == Init /\ [][Next]_vars
Good == ~bad
Apart == SetOf(stack) \cap SetOf(live) = {} /\ Cardinality(SetOf(stack)) = Len(stack)
         /\ Cardinality(SetOf(live)) = Len(live) /\ \A x \in SetOf(stack) \cup SetOf(live) : x \in 1..max
Emit == (Out /\ Len(hist) = D) => PrintT("I " \o ToJson(hist))
=============================================================================
