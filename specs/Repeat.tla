------------------------------- MODULE Repeat -------------------------------
(* Running is a function of the configuration: the first run of a            *)
(* configuration fixes its result, and every later run of it - in the same   *)
(* process or a new one, under any schedule - must give that result again    *)
(* and must leave the caller's data as it was.                               *)
EXTENDS TLC, Sequences, Integers
VARIABLES memo,   \* configuration -> result, for those that ran
          kept    \* no run has changed its caller's data
rvars == <<memo, kept>>
RInit == memo = <<>> /\ kept = TRUE
Agrees(c, r) == c \in DOMAIN memo => memo[c] = r
RunOnce(c, r, k) == /\ Agrees(c, r) /\ k
                    /\ memo' = IF c \in DOMAIN memo THEN memo ELSE memo @@ (c :> r)
                    /\ kept' = (kept /\ k)
Stable == [][\A c \in DOMAIN memo : c \in DOMAIN memo' /\ memo'[c] = memo[c]]_rvars
Kept == kept
=============================================================================
