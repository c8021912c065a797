---------------------------- MODULE HandoverAbs ----------------------------
(* What a phase hand-over between the coordinator and its workers promises:  *)
(* a phase is woken only when none is running, every worker starts it once   *)
(* (fully prepared) and ends it once, together they work on every row once,  *)
(* and the coordinator continues only after the last worker ended.           *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  workers, rows,  \* sets, fixed
  phase,          \* running phase or "none"
  started, ended, \* workers that started / ended the running phase
  cover,          \* rows worked on in the running phase
  gone            \* the coordinator is being destroyed
hvars == <<workers, rows, phase, started, ended, cover, gone>>

HInit(W, Rw) ==
  /\ workers = W /\ rows = Rw /\ phase = "none" /\ started = {} /\ ended = {} /\ cover = {} /\ gone = FALSE

Wake(p) ==
  /\ phase = "none" /\ ~gone /\ p # "none"
  /\ phase' = p /\ started' = {} /\ ended' = {} /\ cover' = {}
  /\ UNCHANGED <<workers, rows, gone>>
StartPhase(w, p) ==
  /\ phase = p /\ w \in workers \ started
  /\ started' = started \cup {w}
  /\ UNCHANGED <<workers, rows, phase, ended, cover, gone>>
Work(w, S) ==
  /\ w \in started \ ended /\ S # {} /\ S \subseteq rows \ cover
  /\ cover' = cover \cup S
  /\ UNCHANGED <<workers, rows, phase, started, ended, gone>>
EndPhase(w) ==
  /\ w \in started \ ended
  /\ ended' = ended \cup {w}
  /\ UNCHANGED <<workers, rows, phase, started, cover, gone>>
Returned ==
  /\ phase # "none" /\ ended = workers
  /\ phase' = "none" /\ started' = {} /\ ended' = {} /\ cover' = {} /\ UNCHANGED <<workers, rows, gone>>
Destroy ==
  /\ phase = "none" /\ ~gone /\ gone' = TRUE
  /\ UNCHANGED <<workers, rows, phase, started, ended, cover>>

HNext == (\E p \in {"EM"} : Wake(p)) \/ Returned \/ Destroy
         \/ \E w \in workers : (\E p \in {"EM"} : StartPhase(w, p)) \/ EndPhase(w) \/ \E S \in SUBSET rows : Work(w, S)
HSpec(W, Rw) == HInit(W, Rw) /\ [][HNext]_hvars
=============================================================================
