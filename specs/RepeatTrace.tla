----------------------------- MODULE RepeatTrace -----------------------------
(* Judges repeated real runs.  Begin; then Run{c, how, status, r, kept}: c    *)
(* names the configuration, r is the whole result (labels, counts,           *)
(* iterations, centres bit for bit).                                         *)
EXTENDS Repeat, Json
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLE l
tvars == <<memo, kept, l>>
Ev == Trace[l]
NextTrace == LET t == Trace[l].tid
                 S == {m \in l..NLines : Trace[m].tid # t}
             IN IF S = {} THEN NLines + 1 ELSE CHOOSE m \in S : \A q \in S : m <= q
Reject(why, info) == PrintT(<<"REJECT", Ev.tid, l, why, info>>) /\ l' = NextTrace /\ UNCHANGED rvars
TraceInit == RInit /\ l = 1
TraceNext ==
  \/ /\ l <= NLines
     /\ CASE Ev.e = "Begin" -> memo' = <<>> /\ kept' = TRUE /\ l' = l + 1
          [] Ev.e = "Run" ->
               IF ~Ev.kept THEN Reject("input-changed", Ev.how)
               ELSE IF ~Agrees(Ev.c, Ev.r) THEN Reject("result-differs", <<Ev.how, memo[Ev.c], Ev.r>>)
               ELSE RunOnce(Ev.c, Ev.r, TRUE) /\ l' = l + 1
  \/ l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1 /\ UNCHANGED rvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
