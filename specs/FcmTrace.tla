------------------------------ MODULE FcmTrace ------------------------------
(* Judges chains of fuzzy c-means results for the pass limits 0, 1, 2, ...   *)
(* The centres of a result are those the next pass starts from.              *)
EXTENDS Fcm, Json, FiniteSets
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLES l, par,
          cen, prev,   \* centres after the last pass and before it
          lab, passes,
          touchy,      \* a computed centre came so near a row that rounding decides memberships
          ended        \* "no", "may", "must": the tolerance rule after the last pass
tvars == <<l, par, cen, prev, lab, passes, touchy, ended>>
Ev == Trace[l]
NextTrace == LET t == Trace[l].tid
                 M == {m \in l..NLines : Trace[m].tid # t}
             IN IF M = {} THEN NLines + 1 ELSE CHOOSE m \in M : \A q \in M : m <= q
TraceInit == l = 1 /\ par = [P |-> <<>>] /\ cen = <<>> /\ prev = <<>> /\ lab = <<>> /\ passes = 0 /\ touchy = FALSE /\ ended = "no"
Reject(why, info) == PrintT(<<"REJECT", Ev.tid, l, why, info>>) /\ l' = NextTrace /\ UNCHANGED <<par, cen, prev, lab, passes, touchy, ended>>
Ok == l' = l + 1
DoBegin == /\ Ev.e = "Begin"
           /\ par' = [P |-> TLCEval([i \in 1..Len(Ev.P) |-> [j \in 1..Ev.d |-> Ev.P[i][j] * Ev.F]]), d |-> Ev.d, k |-> Ev.k, m |-> Ev.m,
                      taxi |-> Ev.metric = "taxi", root |-> Ev.root, tolF |-> Ev.tolF, given |-> Ev.given, F |-> Ev.F]
           /\ cen' = <<>> /\ prev' = <<>> /\ lab' = <<>> /\ passes' = 0 /\ touchy' = FALSE /\ ended' = "no" /\ Ok
Rows == 1..Len(par.P)
NoVal == 999999999
Bad ==
  IF Ev.status # "ok" THEN <<"run-failed", Ev.status>>
  ELSE IF Ev.k # par.k \/ Len(Ev.lab) # Len(par.P) \/ Len(Ev.cs) # par.k \/ Len(Ev.cnt) # par.k
            \/ Ev.nrow # Len(par.P) \/ Ev.ncol # par.d THEN <<"bad-shape", <<Ev.k, Len(Ev.lab), Len(Ev.cs), Len(Ev.cnt), Ev.nrow, Ev.ncol>>>>
  ELSE IF \E i \in Rows : Ev.lab[i] \notin 1..par.k THEN <<"bad-label", Ev.lab>>
  ELSE IF \E c \in 1..par.k : Ev.cnt[c] # Cardinality({i \in Rows : Ev.lab[i] = c}) THEN <<"counts-are-no-histogram", <<Ev.lab, Ev.cnt>>>>
  ELSE IF \E c \in 1..par.k : \E j \in 1..par.d : Ev.cs[c][j] = NoVal THEN <<"centre-is-no-number", Ev.cs>>
  ELSE <<>>
IsRow(c) == \E i \in Rows : \A j \in 1..par.d : AbsI(c[j] - par.P[i][j]) <= 1
Dists(cs) == TLCEval([i \in Rows |-> TLCEval([x \in 1..par.k |-> Dist(par.taxi, par.P[i], cs[x])])])
Apart(a, b, t) == \E x \in 1..par.k : \E j \in 1..par.d : AbsI(a[x][j] - b[x][j]) > t
\* Frobenius norm of the move between two centre sets, within one unit per coordinate
Move2(a, b, s) == Sum([x \in 1..par.k |-> Sum([j \in 1..par.d |->
                     LET v == MaxI(0, AbsI(a[x][j] - b[x][j]) + s) IN v * v])])
MayStop(a, b) == par.tolF > 0 /\ Move2(a, b, -1) <= par.tolF * par.tolF
MustStop(a, b) == par.tolF > 0 /\ Move2(a, b, 1) < (par.tolF - 1) * (par.tolF - 1)
Small(a, b) == ~Apart(a, b, 8000)        \* the squares stay inside 32 bits
DoRun ==
  /\ Ev.e = "Run"
  /\ LET b == Bad
     IN IF b # <<>> THEN Reject(b[1], b[2])
        ELSE IF Ev.lim = 0
        THEN IF Ev.iters # 0 THEN Reject("iterations", Ev.iters)
             ELSE IF par.given # <<>> /\ Apart(Ev.cs, [x \in 1..par.k |-> [j \in 1..par.d |-> par.given[x][j] * par.F]], 1)
                  THEN Reject("given-centres-changed", Ev.cs)
             ELSE IF par.given = <<>> /\ \E x \in 1..par.k : ~IsRow(Ev.cs[x]) THEN Reject("start-centre-is-no-row", Ev.cs)
             ELSE cen' = Ev.cs /\ lab' = Ev.lab /\ Ok /\ UNCHANGED <<par, prev, passes, touchy, ended>>
        ELSE IF Ev.iters = passes /\ passes > 0
        THEN \* no further pass: the tolerance ended the run before
             IF ended = "no" THEN Reject("stopped-early", <<passes, Ev.lim>>)
             ELSE IF Ev.lab # lab \/ Apart(Ev.cs, cen, 1) THEN Reject("moved-after-the-end", <<lab, Ev.lab>>)
             ELSE Ok /\ UNCHANGED <<par, cen, prev, lab, passes, touchy, ended>>
        ELSE IF Ev.iters # passes + 1 \/ Ev.lim # passes + 1 THEN Reject("iterations", <<Ev.iters, passes, Ev.lim>>)
        ELSE IF ended = "must" THEN Reject("went-on-below-the-tolerance", <<passes, Ev.lim>>)
        ELSE LET ds == Dists(cen)
                 wrong == {i \in Rows : ~LabelOk(ds[i], Ev.lab[i])}
             IN IF wrong # {} THEN Reject("label-is-not-the-largest-membership", <<Ev.lab, wrong, cen>>)
                ELSE IF par.root > 0 /\
                        LET w == TLCEval([i \in Rows |-> TLCEval(Weights(ds[i], par.root, par.m))])
                        IN \E x \in 1..par.k : ~MeanOk(par.P, [i \in Rows |-> w[i][x]], Ev.cs[x], par.d)
                     THEN Reject("centre-is-not-the-weighted-mean", <<cen, Ev.cs>>)
                ELSE /\ cen' = Ev.cs /\ prev' = cen /\ lab' = Ev.lab /\ passes' = passes + 1
                     /\ touchy' = (touchy \/ (passes > 0 /\ \E i \in Rows :
                          Cardinality({x \in 1..par.k : ds[i][x][1] = 0}) >= (IF par.root = 1 THEN 2 ELSE 1)))
                     /\ ended' = IF ~Small(Ev.cs, cen) THEN "no" ELSE IF MustStop(Ev.cs, cen) THEN "must"
                                  ELSE IF MayStop(Ev.cs, cen) THEN "may" ELSE "no"
                     /\ Ok /\ UNCHANGED par
\* the same run with another number of threads or from a file
DoAlt ==
  /\ Ev.e = "Alt"
  /\ IF Ev.status # "ok" THEN Reject("run-failed", Ev.status)
     ELSE IF touchy THEN Ok /\ UNCHANGED <<par, cen, prev, lab, passes, touchy, ended>>
     ELSE IF Len(Ev.lab) # Len(lab) \/ Len(Ev.cs) # par.k THEN Reject("bad-shape", Ev.variant)
     ELSE IF Apart(Ev.cs, cen, 1) THEN Reject("variant-centres-differ", <<Ev.variant, cen, Ev.cs>>)
     ELSE IF Ev.iters # passes THEN Reject("variant-iterations-differ", <<Ev.variant, passes, Ev.iters>>)
     ELSE IF passes > 0 /\ LET ds == Dists(prev) IN \E i \in Rows : Ev.lab[i] # lab[i] /\ ~LabelOk(ds[i], Ev.lab[i]) THEN Reject("variant-labels-differ", <<Ev.variant, lab, Ev.lab>>)
     ELSE Ok /\ UNCHANGED <<par, cen, prev, lab, passes, touchy, ended>>
Finish == l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1 /\ UNCHANGED <<par, cen, prev, lab, passes, touchy, ended>>
TraceNext == (l <= NLines /\ (DoBegin \/ DoRun \/ DoAlt)) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
