---------------------------- MODULE CmdLineTrace ----------------------------
(* Each event is one run of a program.                                       *)
EXTENDS CmdLine, Sequences, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLE l
Ev == Trace[l]
Reject(why, info) == PrintT(<<"REJECT", Ev.tid, l, why, info>>) /\ l' = l + 1
TraceInit == l = 1
TraceNext ==
  \/ /\ l <= NLines
     /\ IF Ev.hang THEN Reject("program-does-not-end", Ev.args)
        ELSE IF Usable(Ev) THEN
               IF Ev.rc # 0 THEN Reject("usable-arguments-refused", Ev.args)
               ELSE IF ~Ev.wrote THEN Reject("no-result-written", Ev.args) ELSE l' = l + 1
        ELSE IF Ev.wrote THEN Reject("result-from-unusable-arguments", Ev.args)
        ELSE IF Ev.rc = 0 /\ Ev.nargs = "enough" THEN Reject("unusable-arguments-but-success", Ev.args)
        ELSE l' = l + 1
  \/ l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
