------------------------------ MODULE MCRepeat ------------------------------
(* Small instance: three configurations, three possible results.  Bug =      *)
(* "racy" lets a run pick any result: refuted by Function.                   *)
EXTENDS Repeat
CONSTANT Bug
VARIABLE hist
mvars == <<memo, kept, hist>>
Init == RInit /\ hist = {}
Next == \E c \in 1..3, r \in {"a", "b", "c"} :
          /\ IF Bug = "racy" THEN memo' = (c :> r) @@ memo /\ kept' = kept ELSE RunOnce(c, r, TRUE)
          /\ hist' = hist \cup {<<c, r>>}
Spec == Init /\ [][Next]_mvars
Function == \A x, y \in hist : x[1] = y[1] => x[2] = y[2]
=============================================================================
