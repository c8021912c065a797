------------------------------ MODULE WorkTrace ------------------------------
(* Judges the ranges and tasks the real coordinators and queues give out.    *)
(*  Begin{n}; Range{t,from,n}; Ranges (all announced); Take{t,has,from,n,     *)
(*  first,last,more}; Reset{t}; Lookup{row,got}; first/last/got: the row ids  *)
(*  found in the data itself.  PassEnd{t}: the queue of t says it is empty.   *)
EXTENDS Work, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLES l, n, ranges, given, before
tvars == <<l, n, ranges, given, before>>
Ev == Trace[l]
NextTrace == LET t == Trace[l].tid
                 S == {m \in l..NLines : Trace[m].tid # t}
             IN IF S = {} THEN NLines + 1 ELSE CHOOSE m \in S : \A q \in S : m <= q
Reject(why, info) == PrintT(<<"REJECT", Ev.tid, l, why, info>>) /\ l' = NextTrace /\ UNCHANGED <<n, ranges, given, before>>
TraceInit == l = 1 /\ n = 0 /\ ranges = <<>> /\ given = <<>> /\ before = <<>>
Piece == [from |-> Ev.from, n |-> Ev.n]
Elems(s) == {s[i] : i \in DOMAIN s}
TraceNext ==
  \/ /\ l <= NLines
     /\ CASE Ev.e = "Begin" -> n' = Ev.n /\ ranges' = <<>> /\ given' = <<>> /\ before' = <<>> /\ l' = l + 1
          [] Ev.e = "Crash" -> Reject("operation-failed", Ev.info)
          [] Ev.e = "Range" ->
               IF Ev.from < 0 \/ Ev.n < 0 THEN Reject("range-out-of-bounds", Piece)
               ELSE /\ ranges' = Append(ranges, Piece) /\ given' = Append(given, <<>>) /\ before' = Append(before, <<>>)
                    /\ n' = n /\ l' = l + 1
          [] Ev.e = "Ranges" ->
               IF Partitions(ranges, [from |-> Ev.base, n |-> n]) THEN l' = l + 1 /\ UNCHANGED <<n, ranges, given, before>>
               ELSE Reject("ranges-do-not-partition-the-rows", ranges)
          [] Ev.e = "Take" ->
               IF ~MayGive(given[Ev.t], Piece, ranges[Ev.t]) THEN Reject("task-empty-outside-or-repeated", <<Piece, given[Ev.t], ranges[Ev.t]>>)
               ELSE IF Ev.first # Ev.from \/ Ev.last # Ev.from + Ev.n - 1 THEN Reject("task-carries-other-rows", Ev)
               ELSE given' = [given EXCEPT ![Ev.t] = Append(@, Piece)] /\ l' = l + 1 /\ UNCHANGED <<n, ranges, before>>
          [] Ev.e = "PassEnd" ->
               IF ~Partitions(given[Ev.t], ranges[Ev.t]) THEN Reject("rows-not-given-out", <<given[Ev.t], ranges[Ev.t]>>)
               ELSE IF before[Ev.t] # <<>> /\ Elems(before[Ev.t]) # Elems(given[Ev.t])
                    THEN Reject("other-work-after-reset", <<before[Ev.t], given[Ev.t]>>)
               ELSE before' = [before EXCEPT ![Ev.t] = given[Ev.t]] /\ l' = l + 1 /\ UNCHANGED <<n, ranges, given>>
          [] Ev.e = "Reset" -> given' = [given EXCEPT ![Ev.t] = <<>>] /\ l' = l + 1 /\ UNCHANGED <<n, ranges, before>>
          [] Ev.e = "Lookup" ->
               IF Ev.got # Ev.row THEN Reject("lookup-finds-another-row", <<Ev.row, Ev.got>>)
               ELSE l' = l + 1 /\ UNCHANGED <<n, ranges, given, before>>
  \/ l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1 /\ UNCHANGED <<n, ranges, given, before>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
