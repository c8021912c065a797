--------------------------- MODULE DistTableTrace ---------------------------
EXTENDS DistTable, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLES l, cen
tvars == <<l, cen>>
Ev == Trace[l]
NextTrace == LET t == Trace[l].tid
                 S == {m \in l..NLines : Trace[m].tid # t}
             IN IF S = {} THEN NLines + 1 ELSE CHOOSE m \in S : \A q \in S : m <= q
Reject(why, info) == PrintT(<<"REJECT", Ev.tid, l, why, info>>) /\ l' = NextTrace /\ cen' = cen
TraceInit == l = 1 /\ cen = <<>>
\* obs[i][j] for i # j; the diagonal is whatever the driver put there
Same(obs, f(_, _)) == \A i, j \in DOMAIN cen : i # j => obs[i][j] = f(i, j)
TraceNext ==
  \/ /\ l <= NLines
     /\ CASE Ev.e = "Begin" -> cen' = Ev.cen /\ l' = l + 1
          [] Ev.e = "Crash" -> Reject("operation-failed", Ev.info)
          [] Ev.e = "Move" -> cen' = [cen EXCEPT ![Ev.i] = Ev.v] /\ l' = l + 1
          [] Ev.e = "All" -> cen' = Ev.cen /\ l' = l + 1
          [] Ev.e = "Compute" ->
               IF ~Same(Ev.get, LAMBDA i, j : SqDist(cen[i], cen[j])) THEN Reject("distance-differs", <<Ev.get, Table(cen)>>)
               ELSE IF ~Same(Ev.pw, LAMBDA i, j : SqDist(cen[i], cen[j])) THEN Reject("distance-differs", <<Ev.pw, Table(cen)>>)
               ELSE IF Ev.thr # Thresholds(cen) THEN Reject("threshold-differs", <<Ev.thr, Thresholds(cen)>>)
               ELSE IF Ev.mins # Thresholds(cen) THEN Reject("smallest-entry-differs", <<Ev.mins, Thresholds(cen)>>)
               ELSE cen' = cen /\ l' = l + 1
          [] Ev.e = "Pairs" ->       \* all pairwise distances of given points
               LET p == Ev.pts
                   D(i, j) == IF Ev.metric = "taxi" THEN Taxi(p[i], p[j]) ELSE SqDist(p[i], p[j])
               IN IF \A i, j \in DOMAIN p : i # j => Ev.get[i][j] = D(i, j) /\ Ev.pw[i][j] = D(i, j)
                  THEN IF \A i \in DOMAIN p : Ev.self[i] = 0 THEN cen' = cen /\ l' = l + 1
                       ELSE Reject("self-distance-not-zero", Ev.self)
                  ELSE Reject("pairwise-distance-differs", <<p, Ev.get>>)
  \/ l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1 /\ cen' = cen
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
