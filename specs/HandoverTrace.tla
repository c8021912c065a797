--------------------------- MODULE HandoverTrace ---------------------------
(* Judges recorded hand-overs of real worker threads under many schedules.   *)
EXTENDS HandoverAbs, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLES l, tasks
tvars == <<workers, rows, phase, started, ended, cover, gone, l, tasks>>
Ev == Trace[l]
NextTrace == LET t == Trace[l].tid
                 S == {m \in l..NLines : Trace[m].tid # t}
             IN IF S = {} THEN NLines + 1 ELSE CHOOSE m \in S : \A q \in S : m <= q
TraceInit == HInit({}, {}) /\ l = 1 /\ tasks = FALSE
Reject(why, info) ==
  /\ PrintT(<<"REJECT", Ev.tid, l, why, info>>) /\ l' = NextTrace /\ UNCHANGED <<hvars, tasks>>
Step(act, ok, why) ==
  IF ok THEN act /\ l' = l + 1 /\ tasks' = tasks ELSE Reject(why, <<Ev, phase, started, ended>>)

TraceNext ==
  \/ /\ l <= NLines
     /\ CASE Ev.e = "Begin" ->
               /\ workers' = 0..(Ev.nw - 1) /\ rows' = 0..(Ev.rows - 1) /\ phase' = "none"
               /\ started' = {} /\ ended' = {} /\ cover' = {} /\ gone' = FALSE
               /\ l' = l + 1 /\ tasks' = Ev.tasks
          [] Ev.e = "Wake" -> Step(Wake(Ev.p), phase = "none" /\ ~gone, "woken-during-a-phase")
          [] Ev.e = "Start" ->
               IF ~Ev.prepared THEN Reject("phase-started-before-it-was-prepared", Ev)
               ELSE Step(StartPhase(Ev.w, Ev.p), phase = Ev.p /\ Ev.w \in workers \ started, "phase-not-started-for-this-worker")
          [] Ev.e = "Task" ->
               LET S == Ev.from..(Ev.from + Ev.n - 1)
               IN Step(Work(Ev.w, S), Ev.w \in started \ ended /\ S # {} /\ S \subseteq rows \ cover, "task-outside-or-repeated")
          [] Ev.e = "End" -> Step(EndPhase(Ev.w), Ev.w \in started \ ended, "phase-ended-twice")
          [] Ev.e = "Returned" ->
               IF tasks /\ phase # "TEST" /\ cover # rows THEN Reject("rows-not-covered", rows \ cover)
               ELSE Step(Returned, phase # "none" /\ ended = workers, "coordinator-continued-early")
          [] Ev.e = "Destroy" -> Step(Destroy, phase = "none" /\ ~gone, "destroyed-during-a-phase")
          [] Ev.e = "Done" ->
               IF Ev.misuse # "-" THEN Reject("misuse", Ev.misuse)
               ELSE Step(UNCHANGED hvars, gone, "ended-without-destruction")
          [] Ev.e = "Hang" -> Reject("hang", Ev.threads)
          [] Ev.e = "Crash" -> Reject("crash", Ev.info)
  \/ l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1 /\ UNCHANGED <<hvars, tasks>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
