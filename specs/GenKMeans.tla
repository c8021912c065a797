----------------------------- MODULE GenKMeans -----------------------------
(* Emits every instance of the small scope of MCKMeans, one JSON line each.  *)
EXTENDS MCKMeans, Json
GenInit == MCInit
GenNext == FALSE /\ UNCHANGED kvars
Emit == PrintT("I " \o ToJson([P |-> inst.P, C |-> [c \in 1..K |-> cen[c].s]]))
=============================================================================
