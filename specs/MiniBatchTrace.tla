--------------------------- MODULE MiniBatchTrace ---------------------------
(* Judges chains of mini-batch results for the pass limits 0, 1, 2, ...      *)
(* Neither the samples nor the labels given in a batch are visible: cand is  *)
(* the set of all label vectors (0: never labelled) that some choice of      *)
(* samples makes consistent with the centres returned so far.                *)
EXTENDS MiniBatch, Json
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLES l, par, cen, lab, passes, cand, ended
tvars == <<l, par, cen, lab, passes, cand, ended>>
Ev == Trace[l]
NextTrace == LET t == Trace[l].tid
                 M == {m \in l..NLines : Trace[m].tid # t}
             IN IF M = {} THEN NLines + 1 ELSE CHOOSE m \in M : \A q \in M : m <= q
TraceInit == l = 1 /\ par = [P |-> <<>>] /\ cen = <<>> /\ lab = <<>> /\ passes = 0 /\ cand = {} /\ ended = "no"
Reject(why, info) == PrintT(<<"REJECT", Ev.tid, l, why, info>>) /\ l' = NextTrace /\ UNCHANGED <<par, cen, lab, passes, cand, ended>>
Ok == l' = l + 1
DoBegin == /\ Ev.e = "Begin"
           /\ par' = [P |-> TLCEval([i \in 1..Len(Ev.P) |-> [j \in 1..Ev.d |-> Ev.P[i][j] * Ev.F]]), d |-> Ev.d, k |-> Ev.k,
                      taxi |-> Ev.metric = "taxi", init |-> Ev.init, all |-> Ev.all, tolF |-> Ev.tolF, given |-> Ev.given, F |-> Ev.F]
           /\ cen' = <<>> /\ lab' = <<>> /\ passes' = 0 /\ cand' = {} /\ ended' = "no" /\ Ok
Rows == 1..Len(par.P)
Cs == 1..par.k
NoVal == 999999999
\* a returned centre is known to within half a unit
Around(c) == [j \in 1..par.d |-> <<c[j] - 1, c[j] + 1>>]
Arounds(cs) == TLCEval([c \in Cs |-> TLCEval(Around(cs[c]))])
Bad ==
  IF Ev.status # "ok" THEN <<"run-failed", Ev.status>>
  ELSE IF Ev.k # par.k \/ Len(Ev.lab) # Len(par.P) \/ Len(Ev.cs) # par.k \/ Len(Ev.cnt) # par.k
            \/ Ev.nrow # Len(par.P) \/ Ev.ncol # par.d THEN <<"bad-shape", <<Ev.k, Len(Ev.lab), Len(Ev.cs), Len(Ev.cnt), Ev.nrow, Ev.ncol>>>>
  ELSE IF \E i \in Rows : Ev.lab[i] \notin Cs THEN <<"bad-label", Ev.lab>>
  ELSE IF \E c \in Cs : Ev.cnt[c] # Cardinality({i \in Rows : Ev.lab[i] = c}) THEN <<"counts-are-no-histogram", <<Ev.lab, Ev.cnt>>>>
  ELSE IF \E c \in Cs : \E j \in 1..par.d : Ev.cs[c][j] = NoVal THEN <<"centre-is-no-number", Ev.cs>>
  ELSE LET A == Arounds(Ev.cs)
           wrong == UNION {{i \in Rows : Ev.lab[i] \notin NearestOf(par.taxi, par.P[i], B)} : B \in {A}}
       IN IF wrong # {} THEN <<"final-label-is-not-nearest", <<wrong, Ev.lab, Ev.cs>>>> ELSE <<>>
Fits(c, iv) == \A j \in 1..par.d : c[j] + 1 >= iv[j][1] /\ c[j] - 1 <= iv[j][2]
IsRow(c) == \E i \in Rows : \A j \in 1..par.d : AbsI(c[j] - par.P[i][j]) <= 1
Apart(a, b, t) == \E x \in Cs : \E j \in 1..par.d : AbsI(a[x][j] - b[x][j]) > t
Hull(c, x) == \A j \in 1..par.d :
  /\ Ev.cs[x][j] >= FoldLeft(LAMBDA a, p : MinI(a, p[j]), cen[x][j], par.P) - 2
  /\ Ev.cs[x][j] <= FoldLeft(LAMBDA a, p : MaxI(a, p[j]), cen[x][j], par.P) + 2
Move2(a, b, s) == SumI([x \in Cs |-> SumI([j \in 1..par.d |-> LET v == MaxI(0, AbsI(a[x][j] - b[x][j]) + s) IN v * v])])
MayStop(a, b) == par.tolF > 0 /\ Move2(a, b, -1) <= par.tolF * par.tolF
MustStop(a, b) == par.tolF > 0 /\ Move2(a, b, 1) < (par.tolF - 1) * (par.tolF - 1)
\* label vectors a random partition may have had
MeansOf(L) == \A c \in Cs : LET M == {i \in Rows : L[i] = c}
                                n == Cardinality(M)
                            IN n > 0 /\ \A j \in 1..par.d :
                                 AbsI(SumI([i \in Rows |-> IF i \in M THEN par.P[i][j] ELSE 0]) - n * Ev.cs[c][j]) <= n
Start == IF par.init = "random" THEN IF Len(par.P) <= 6 THEN {L \in [Rows -> Cs] : MeansOf(L)} ELSE {}
         ELSE IF par.init = "kmeanspp" THEN {[i \in Rows |-> Ev.lab[i]]}
         ELSE {[i \in Rows |-> 0]}
\* the samples of one batch, with the labels each row may get
Near(A) == TLCEval([i \in Rows |-> NearestOf(par.taxi, par.P[i], A)])
Loose == 40
Labelings(L, S, near) ==
  IF \A i \in S : Cardinality(near[i]) = 1 THEN {[i \in Rows |-> IF i \in S THEN CHOOSE c \in near[i] : TRUE ELSE L[i]]}
  ELSE FoldLeft(LAMBDA acc, i : IF i \in S THEN UNION {{[M EXCEPT ![i] = c] : c \in near[i]} : M \in acc} ELSE acc, {L}, [i \in Rows |-> i])
Follows(A, S, M) == \E B \in {Batch(par.P, A, S, M)} : \A c \in Cs : Fits(Ev.cs[c], B[c])
After(A, near) ==
  LET samples == IF par.all THEN {Rows} ELSE SUBSET Rows
  IN UNION {UNION {{M \in Labelings(L, S, near) : Follows(A, S, M)} : S \in samples} : L \in cand}
DoRun ==
  /\ Ev.e = "Run"
  /\ LET b == Bad
     IN IF b # <<>> THEN Reject(b[1], b[2])
        ELSE IF Ev.lim = 0
        THEN IF Ev.iters # 0 THEN Reject("iterations", Ev.iters)
             ELSE IF par.given # <<>> /\ Apart(Ev.cs, [x \in Cs |-> [j \in 1..par.d |-> par.given[x][j] * par.F]], 1)
                  THEN Reject("given-centres-changed", Ev.cs)
             ELSE IF par.init \in {"forgy", "kmeanspp"} /\ \E x \in Cs : ~IsRow(Ev.cs[x]) THEN Reject("start-centre-is-no-row", Ev.cs)
             ELSE cen' = Ev.cs /\ lab' = Ev.lab /\ cand' = TLCEval(Start) /\ Ok /\ UNCHANGED <<par, passes, ended>>
        ELSE IF Ev.iters = passes /\ passes > 0
        THEN IF ended = "no" THEN Reject("stopped-early", <<passes, Ev.lim>>)
             ELSE IF Ev.lab # lab \/ Apart(Ev.cs, cen, 1) THEN Reject("moved-after-the-end", <<lab, Ev.lab>>)
             ELSE Ok /\ UNCHANGED <<par, cen, lab, passes, cand, ended>>
        ELSE IF Ev.iters # passes + 1 \/ Ev.lim # passes + 1 THEN Reject("iterations", <<Ev.iters, passes, Ev.lim>>)
        ELSE IF ended = "must" THEN Reject("went-on-below-the-tolerance", <<passes, Ev.lim>>)
        ELSE IF \E x \in Cs : ~Hull(Ev.cs[x], x) THEN Reject("centre-left-the-hull", <<cen, Ev.cs>>)
        ELSE \E A \in {Arounds(cen)} : \E near \in {Near(A)} :      \* bound, so that TLC evaluates them once
             LET
                 ways == FoldLeft(LAMBDA a, i : MinI(1000, a * Cardinality(near[i])), 1, [i \in Rows |-> i])
                 big == cand = {} \/ ways * Cardinality(cand) > Loose \/ (~par.all /\ Len(par.P) > 7)
             IN \E nxt \in {IF big THEN {} ELSE After(A, near)} :
                IF ~big /\ nxt = {} THEN Reject("no-sample-explains-the-centres", <<cen, Ev.cs, cand>>)
                ELSE /\ cen' = Ev.cs /\ lab' = Ev.lab /\ passes' = passes + 1 /\ cand' = nxt
                     /\ ended' = IF Apart(Ev.cs, cen, 8000) THEN "no" ELSE IF MustStop(Ev.cs, cen) THEN "must"
                                  ELSE IF MayStop(Ev.cs, cen) THEN "may" ELSE "no"
                     /\ Ok /\ UNCHANGED par
\* the same run with another number of threads (all rows sampled) or from a file
DoAlt ==
  /\ Ev.e = "Alt"
  /\ LET b == Bad
     IN IF b # <<>> THEN Reject(b[1], b[2])
        ELSE IF Apart(Ev.cs, cen, 1) THEN Reject("variant-centres-differ", <<Ev.variant, cen, Ev.cs>>)
        ELSE IF Ev.iters # passes THEN Reject("variant-iterations-differ", <<Ev.variant, passes, Ev.iters>>)
        ELSE Ok /\ UNCHANGED <<par, cen, lab, passes, cand, ended>>
Finish == l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1 /\ UNCHANGED <<par, cen, lab, passes, cand, ended>>
TraceNext == (l <= NLines /\ (DoBegin \/ DoRun \/ DoAlt)) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
