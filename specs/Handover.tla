------------------------------ MODULE Handover ------------------------------
(* The hand-over as implemented, at the grain of its mutex and condition     *)
(* operations (libman/coordinator.cpp, thread.cpp, task_thread.cpp).         *)
(* Checked: it refines HandoverAbs, never deadlocks, and every worker exits. *)
(* Bug = "none" is the code; the other values are refuted.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NW, NP, Bug
W == 1..NW
Cood == 0

VARIABLES
  cpc, cph, ci,      \* coordinator: program counter, phases done, worker index
  pending,           \* atomic counter
  pm, wm,            \* owner of the coordinator's mutex / of each worker's mutex (-1 free)
  pwait,             \* coordinator is waiting on its condition
  wwait,             \* set of workers waiting on their condition
  state,             \* state[w]: "WAIT", "EM", "EXIT"
  ready,             \* ready[w]: wake() finished preparing the phase
  wpc,               \* worker program counters
  runs,              \* runs[w]: how often w ran the current phase
  early              \* a worker ran a phase before it was prepared
vars == <<cpc, cph, ci, pending, pm, wm, pwait, wwait, state, ready, wpc, runs, early>>

Init ==
  /\ cpc = "set" /\ cph = 0 /\ ci = 1 /\ pending = 0 /\ pm = -1 /\ wm = [w \in W |-> -1]
  /\ pwait = FALSE /\ wwait = {} /\ state = [w \in W |-> "WAIT"] /\ ready = [w \in W |-> TRUE]
  /\ wpc = [w \in W |-> "top"] /\ runs = [w \in W |-> 0] /\ early = FALSE

Target == IF cph = NP THEN "EXIT" ELSE "EM"

\* ------------------------------------------------------------ coordinator
CSet ==            \* wake4run: pending = nthreads
  /\ cpc = "set"
  /\ pending' = IF Bug = "pendinglate" THEN pending ELSE NW
  /\ ci' = 1 /\ runs' = [w \in W |-> 0] /\ cpc' = "lockw"
  /\ UNCHANGED <<cph, pm, wm, pwait, wwait, state, ready, wpc, early>>
CLockW ==          \* wake(w): take the worker's mutex, set the state ...
  /\ cpc = "lockw" /\ wm[ci] = -1
  /\ wm' = [wm EXCEPT ![ci] = Cood]
  /\ state' = [state EXCEPT ![ci] = Target] /\ ready' = [ready EXCEPT ![ci] = FALSE]
  /\ cpc' = "prep"
  /\ UNCHANGED <<cph, ci, pending, pm, pwait, wwait, wpc, runs, early>>
CPrep ==           \* ... prepare task and sums, release
  /\ cpc = "prep"
  /\ ready' = [ready EXCEPT ![ci] = TRUE] /\ wm' = [wm EXCEPT ![ci] = -1] /\ cpc' = "sigw"
  /\ UNCHANGED <<cph, ci, pending, pm, pwait, wwait, state, wpc, runs, early>>
CSigW ==           \* signal the worker's condition
  /\ cpc = "sigw"
  /\ wwait' = wwait \ {ci}
  /\ IF ci < NW THEN ci' = ci + 1 /\ cpc' = "lockw" /\ UNCHANGED pending
     ELSE /\ ci' = ci
          /\ cpc' = IF cph = NP THEN "join" ELSE "lockp"
          /\ pending' = IF Bug = "pendinglate" THEN NW ELSE pending
  /\ UNCHANGED <<cph, pm, wm, pwait, state, ready, wpc, runs, early>>
CLockP ==
  /\ cpc = "lockp" /\ pm = -1 /\ pm' = Cood /\ cpc' = "test"
  /\ UNCHANGED <<cph, ci, pending, wm, pwait, wwait, state, ready, wpc, runs, early>>
CTest ==
  /\ cpc = "test"
  /\ cpc' = IF pending # 0 THEN "wait" ELSE "done"
  /\ UNCHANGED <<cph, ci, pending, pm, wm, pwait, wwait, state, ready, wpc, runs, early>>
CWait ==           \* atomically release and sleep
  /\ cpc = "wait" /\ pm' = -1 /\ pwait' = TRUE /\ cpc' = "waiting"
  /\ UNCHANGED <<cph, ci, pending, wm, wwait, state, ready, wpc, runs, early>>
CWoken ==
  /\ cpc = "waiting" /\ ~pwait /\ pm = -1 /\ pm' = Cood
  /\ cpc' = IF Bug = "ifwait" THEN "done" ELSE "test"
  /\ UNCHANGED <<cph, ci, pending, wm, pwait, wwait, state, ready, wpc, runs, early>>
CSpurious ==       \* a condition wait may return without a signal
  /\ Bug = "ifwait" /\ cpc = "waiting" /\ pwait /\ pwait' = FALSE
  /\ UNCHANGED <<cpc, cph, ci, pending, pm, wm, wwait, state, ready, wpc, runs, early>>
CDone ==
  /\ cpc = "done" /\ pm' = -1 /\ cph' = cph + 1 /\ cpc' = "set"
  /\ UNCHANGED <<ci, pending, wm, pwait, wwait, state, ready, wpc, runs, early>>
CJoin ==
  /\ cpc = "join" /\ \A w \in W : wpc[w] = "exited" /\ cpc' = "end"
  /\ UNCHANGED <<cph, ci, pending, pm, wm, pwait, wwait, state, ready, wpc, runs, early>>

\* ----------------------------------------------------------------- worker
Top(w) ==          \* callback: go to wait() (the polled variant looks without the lock)
  /\ wpc[w] = "top"
  /\ wpc' = [wpc EXCEPT ![w] = IF Bug = "polled" /\ state[w] # "WAIT" THEN "look" ELSE "lock"]
  /\ UNCHANGED <<cpc, cph, ci, pending, pm, wm, pwait, wwait, state, ready, runs, early>>
Lock(w) ==
  /\ wpc[w] = "lock" /\ wm[w] = -1 /\ wm' = [wm EXCEPT ![w] = w]
  /\ wpc' = [wpc EXCEPT ![w] = "check"]
  /\ UNCHANGED <<cpc, cph, ci, pending, pm, pwait, wwait, state, ready, runs, early>>
Check(w) ==
  /\ wpc[w] = "check" /\ wm' = [wm EXCEPT ![w] = -1]
  /\ IF state[w] = "WAIT"
     THEN wwait' = wwait \cup {w} /\ wpc' = [wpc EXCEPT ![w] = "waiting"]
     ELSE wwait' = wwait /\ wpc' = [wpc EXCEPT ![w] = "look"]
  /\ UNCHANGED <<cpc, cph, ci, pending, pm, pwait, state, ready, runs, early>>
Woken(w) ==
  /\ wpc[w] = "waiting" /\ w \notin wwait /\ wm[w] = -1
  /\ wm' = [wm EXCEPT ![w] = w] /\ wpc' = [wpc EXCEPT ![w] = "check"]
  /\ UNCHANGED <<cpc, cph, ci, pending, pm, pwait, wwait, state, ready, runs, early>>
Look(w) ==         \* run the phase or leave
  /\ wpc[w] = "look"
  /\ IF state[w] = "EXIT" THEN wpc' = [wpc EXCEPT ![w] = "exited"] /\ UNCHANGED <<runs, early>>
     ELSE /\ wpc' = [wpc EXCEPT ![w] = "sleep"] /\ runs' = [runs EXCEPT ![w] = @ + 1]
          /\ early' = (early \/ ~ready[w])
  /\ UNCHANGED <<cpc, cph, ci, pending, pm, wm, pwait, wwait, state, ready>>
SleepLock(w) ==
  /\ wpc[w] = "sleep" /\ wm[w] = -1 /\ wm' = [wm EXCEPT ![w] = w]
  /\ wpc' = [wpc EXCEPT ![w] = "notify"]
  /\ UNCHANGED <<cpc, cph, ci, pending, pm, pwait, wwait, state, ready, runs, early>>
Notify(w) ==       \* take the coordinator's mutex (the unlocked variant does not)
  /\ wpc[w] = "notify"
  /\ IF Bug = "unlocked" THEN pm' = pm ELSE pm = -1 /\ pm' = w
  /\ wpc' = [wpc EXCEPT ![w] = "dec"]
  /\ UNCHANGED <<cpc, cph, ci, pending, wm, pwait, wwait, state, ready, runs, early>>
Dec(w) ==          \* state = WAIT; --pending
  /\ wpc[w] = "dec"
  /\ state' = [state EXCEPT ![w] = "WAIT"] /\ pending' = pending - 1
  /\ wpc' = [wpc EXCEPT ![w] = IF pending' = 0 THEN "sig" ELSE "rel"]
  /\ UNCHANGED <<cpc, cph, ci, pm, wm, pwait, wwait, ready, runs, early>>
Sig(w) ==
  /\ wpc[w] = "sig" /\ pwait' = FALSE /\ wpc' = [wpc EXCEPT ![w] = "rel"]
  /\ UNCHANGED <<cpc, cph, ci, pending, pm, wm, wwait, state, ready, runs, early>>
Rel(w) ==
  /\ wpc[w] = "rel"
  /\ pm' = IF pm = w THEN -1 ELSE pm
  /\ wm' = [wm EXCEPT ![w] = -1]
  /\ wpc' = [wpc EXCEPT ![w] = "top"]
  /\ UNCHANGED <<cpc, cph, ci, pending, pwait, wwait, state, ready, runs, early>>

CNext == CSet \/ CLockW \/ CPrep \/ CSigW \/ CLockP \/ CTest \/ CWait \/ CWoken \/ CSpurious \/ CDone \/ CJoin
WNext(w) == Top(w) \/ Lock(w) \/ Check(w) \/ Woken(w) \/ Look(w) \/ SleepLock(w) \/ Notify(w) \/ Dec(w) \/ Sig(w) \/ Rel(w)
End == cpc = "end" /\ UNCHANGED vars
Next == CNext \/ (\E w \in W : WNext(w)) \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(CNext) /\ \A w \in W : WF_vars(WNext(w))

\* ------------------------------------------------------------- properties
InPhase(w) == wpc[w] \in {"sleep", "notify", "dec"}
\* when the coordinator continues, every worker ran the phase exactly once and is out of it
Once == \A w \in W : runs[w] <= 1
Complete == cpc = "done" => \A w \in W : runs[w] = 1 /\ ~InPhase(w)
NotEarly == ~early
NoStray == (cpc = "set") => \A w \in W : ~InPhase(w)
PendingOk == pending \in 0..NW
\* refinement of HandoverAbs
phaseBar == IF cpc \in {"set", "join", "end"} \/ (cph = NP) THEN "none" ELSE "EM"
startedBar == IF phaseBar = "none" THEN {} ELSE {w \in W : runs[w] = 1}
endedBar == IF phaseBar = "none" THEN {} ELSE {w \in W : runs[w] = 1 /\ ~InPhase(w)}
Abs == INSTANCE HandoverAbs WITH workers <- W, rows <- {}, phase <- phaseBar, started <- startedBar,
         ended <- endedBar, cover <- {}, gone <- (cph = NP /\ cpc # "set")
Refines == Abs!HSpec(W, {})
AllExit == <>(cpc = "end")
=============================================================================
