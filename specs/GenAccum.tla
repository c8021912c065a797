------------------------------ MODULE GenAccum ------------------------------
(* Produces behaviours of Accum (operation sequences within the contract) as *)
(* JSON, to be replayed into the real accumulators.                          *)
EXTENDS Accum, TLC, Json, FiniteSets
CONSTANT D
VARIABLES A, cfg, hist
R(S) == RandomElement(S)
Types == <<"plain", "prune", "sparse", "h">>
Init == /\ cfg \in [ty : {"plain", "prune", "sparse", "h"}, k : {1, 2, 3, 4, 9}, d : {1, 2, 3, 9, 17}, na : 2..3]
        /\ A = [a \in 1..cfg.na |-> [c \in 1..cfg.k |-> Empty(cfg.d)]] /\ hist = <<>>
OpsOf == {"add", "add", "rem", "addit", "remit", "swap", "swapit", "peq", "pluseq", "sums", "fin", "unfin", "finall", "unfinall", "clear"}
         \cup (IF cfg.ty = "prune" THEN {"setprev", "setpd", "sets", "resets"} ELSE {})
Cand(op) ==
  [op |-> op, a |-> R(1..cfg.na), b |-> R(1..cfg.na),
   c |-> R(1..(cfg.k + (IF cfg.ty = "sparse" THEN 3 ELSE 0))), c2 |-> R(1..cfg.k),
   v |-> [j \in 1..cfg.d |-> R(-40..40)], x |-> R(-9..9)]
\* adding is what makes the other operations interesting
Weight == R(1..10)
Next == \E o \in {Cand(IF Weight <= 5 THEN "add" ELSE R(OpsOf))} :
           IF Legal(A, o, cfg.ty)
           THEN A' = [A EXCEPT ![o.a] = Meaning(A, o, cfg.d)] /\ hist' = Append(hist, o) /\ cfg' = cfg
           ELSE UNCHANGED cfg /\ A' = A /\ hist' = hist
Emit == TLCGet("level") = D => PrintT("I " \o ToJson([cfg |-> cfg, ops |-> hist]))
Spec == Init /\ [][Next]_<<A, cfg, hist>>
=============================================================================
