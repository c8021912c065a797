---------------------------- MODULE MedoidsTrace ----------------------------
(* Judges chains of k-medoids results for the pass limits 0, 1, 2, ...       *)
EXTENDS Medoids, Json
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLES l, F
tvars == <<par, med, lab, passes, done, l, F>>
Ev == Trace[l]
NextTrace == LET t == Trace[l].tid
                 M == {m \in l..NLines : Trace[m].tid # t}
             IN IF M = {} THEN NLines + 1 ELSE CHOOSE m \in M : \A q \in M : m <= q
TraceInit == par = [P |-> <<>>] /\ med = <<>> /\ lab = <<>> /\ passes = 0 /\ done = FALSE /\ l = 1 /\ F = 1
Reject(why, info) == PrintT(<<"REJECT", Ev.tid, l, why, info>>) /\ l' = NextTrace /\ UNCHANGED <<par, med, lab, passes, done, F>>

DoBegin == /\ Ev.e = "Begin"
           /\ par' = [P |-> Ev.P, D |-> Table(Ev.metric, Ev.P), slack |-> SlackOf(Ev.metric), k |-> Ev.k, metric |-> Ev.metric,
                      full |-> Ev.full, tolN |-> Ev.tolN, tolD |-> Ev.tolD]
           /\ med' = <<>> /\ lab' = <<>> /\ passes' = 0 /\ done' = FALSE /\ F' = Ev.F /\ l' = l + 1

D == Len(par.P[1])
RowsAt(c) == {i \in Rows : \A j \in 1..D : Abs(Ev.cs[(c-1)*D+j] - F * par.P[i][j]) <= 1}
\* what every result must be
Bad ==
  IF Ev.status # "ok" THEN <<"run-failed", Ev.status>>
  ELSE IF Ev.k # par.k \/ Len(Ev.lab) # Len(par.P) \/ Len(Ev.cs) # par.k * D \/ Len(Ev.cnt) # par.k
            \/ Ev.nrow # Len(par.P) \/ Ev.ncol # D THEN <<"bad-shape", <<Ev.k, Len(Ev.lab), Len(Ev.cs), Len(Ev.cnt), Ev.nrow, Ev.ncol>>>>
  ELSE IF \E i \in Rows : Ev.lab[i] \notin 1..par.k THEN <<"bad-label", Ev.lab>>
  ELSE IF \E c \in 1..par.k : Ev.cnt[c] # Cardinality(Members(Ev.lab, c)) THEN <<"counts-are-no-histogram", <<Ev.lab, Ev.cnt>>>>
  ELSE IF \E c \in 1..par.k : RowsAt(c) = {} THEN <<"centre-is-no-row", Ev.cs>>
  ELSE <<>>
Meds == TLCEval([c \in 1..par.k |-> CHOOSE i \in RowsAt(c) : TRUE])
Owns(m) == \A c \in 1..par.k :
   Members(Ev.lab, c) # {} => \/ \E i \in Members(Ev.lab, c) : Same(i, m[c])
                              \/ par.metric = "cos" /\ \E e \in 1..par.k : e # c /\ AsNear(m[c], m[e], m[c])
DoRun ==
  /\ Ev.e = "Run"
  /\ LET b == Bad
     IN IF b # <<>> THEN Reject(b[1], b[2])
        ELSE LET m == Meds
             IN IF ~NearestLabels(m, Ev.lab) THEN Reject("not-the-nearest-medoid", <<[c \in 1..par.k |-> par.P[m[c]]], Ev.lab>>)
                ELSE IF ~Owns(m) THEN Reject("medoid-outside-its-cluster", <<[c \in 1..par.k |-> par.P[m[c]]], Ev.lab>>)
                ELSE IF Ev.lim = 0
                     THEN IF Ev.iters # 0 THEN Reject("iterations", Ev.iters)
                          ELSE /\ med' = m /\ lab' = Ev.lab /\ l' = l + 1 /\ UNCHANGED <<par, passes, done, F>>
                ELSE IF done
                     THEN \* the run has ended: a larger limit changes nothing
                          IF Ev.lab # lab \/ \E c \in 1..par.k : ~Same(m[c], med[c]) THEN Reject("moved-after-the-end", <<lab, Ev.lab>>)
                          ELSE IF Ev.iters # passes THEN Reject("iterations", <<Ev.iters, passes>>)
                          ELSE l' = l + 1 /\ UNCHANGED <<par, med, lab, passes, done, F>>
                ELSE IF Ev.lim # passes + 1 THEN Reject("not-ended", <<passes, Ev.lim>>)
                ELSE IF Ev.iters # passes + 1 THEN Reject("iterations", <<Ev.iters, passes + 1>>)
                ELSE IF TotalOf(m, Ev.lab) > TotalOf(med, lab) + 4 * par.slack * Len(par.P)
                     THEN Reject("total-distance-grew", <<TotalOf(med, lab), TotalOf(m, Ev.lab)>>)
                ELSE IF ~MedStep(m) THEN Reject("not-a-medoid-step", <<med, m, lab>>)
                ELSE Effect(m, Ev.lab) /\ l' = l + 1 /\ UNCHANGED F
Finish == l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1 /\ UNCHANGED <<par, med, lab, passes, done, F>>
TraceNext == (l <= NLines /\ (DoBegin \/ DoRun)) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
