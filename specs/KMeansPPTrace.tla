--------------------------- MODULE KMeansPPTrace ---------------------------
(* Judges recorded kmeans++ starts and the results of repeated kmeans++.     *)
(*  Begin   P k d metric F                                                   *)
(*  Start   i-th start: lab cnt cs (centres*F) en (total*F)                  *)
(*  Result  of asking for s starts: best en lab cnt cs                       *)
(*  Draw    ctx = rows chosen so far, obs[i] = how often row i came next     *)
EXTENDS KMeansPP, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLES l, inst,
          quant    \* quant[y]: the range the random number of draw y must lie in
tvars == <<P, ch, best, hist, l, inst, quant>>
Ev == Trace[l]
NextTrace == LET t == Trace[l].tid
                 M == {m \in l..NLines : Trace[m].tid # t}
             IN IF M = {} THEN NLines + 1 ELSE CHOOSE m \in M : \A q \in M : m <= q
None == [k |-> 0, d |-> 0, metric |-> "eucl", F |-> 1, W |-> <<>>]
TraceInit == l = 1 /\ P = <<>> /\ ch = <<>> /\ hist = <<>> /\ best = [start |-> 0] /\ inst = None /\ quant = <<>>
Reject(why, info) == /\ PrintT(<<"REJECT", Ev.tid, l, why, info>>)
                     /\ l' = NextTrace /\ UNCHANGED <<P, ch, best, hist, inst, quant>>

DoBegin == /\ Ev.e = "Begin" /\ l' = l + 1
           /\ P' = Ev.P /\ ch' = <<>> /\ hist' = <<>> /\ best' = [start |-> 0]
           /\ quant' = [y \in 1..Ev.k |-> [ln |-> 0, ld |-> 1, hn |-> 1, hd |-> 1]]
           /\ inst' = [k |-> Ev.k, d |-> Ev.d, metric |-> Ev.metric, F |-> Ev.F, W |-> Ev.W]

Near(a, b) == Abs(a - b) <= 1
Is(cs, p) == \A j \in 1..inst.d : Near(cs[j], inst.F * p[j])
IsRow(cs) == \E i \in 1..Len(P) : Is(cs, P[i])
RowOf(cs) == CHOOSE i \in 1..Len(P) : Is(cs, P[i])
\* the rows a start chose
Chosen(cs) == [x \in 1..inst.k |-> RowOf(cs[x])]
Shape == /\ Len(Ev.lab) = Len(P) /\ Len(Ev.cnt) = inst.k /\ Len(Ev.cs) = inst.k
         /\ \A x \in 1..inst.k : Len(Ev.cs[x]) = inst.d
         /\ \A i \in 1..Len(P) : Ev.lab[i] \in 1..inst.k
Hist == \A x \in 1..inst.k : Ev.cnt[x] = Cardinality({i \in 1..Len(P) : Ev.lab[i] = x})
LegalDraws(c) == \A y \in 1..Len(c) : Drawable(inst.metric, inst.F, P, SubSeq(c, 1, y - 1), c[y])
\* rounding of the sum: one unit per row (Euclidean roots are rounded down)
Slack == Len(P) + 1
EnergyIs(en, e) == en <= e + Slack /\ en >= e - 1

Judge(ok) ==
  IF Ev.status # "ok" THEN Reject("run-failed", Ev.status)
  ELSE IF ~Shape THEN Reject("bad-shape-or-label", Ev.lab)
  ELSE IF ~(\A x \in 1..inst.k : IsRow(Ev.cs[x])) THEN Reject("centre-is-no-row", Ev.cs)
  ELSE IF ~LegalDraws(Chosen(Ev.cs)) THEN Reject("centre-repeated", Chosen(Ev.cs))
  ELSE IF ~NearLab(inst.metric, inst.F, P, Chosen(Ev.cs), Ev.lab) THEN Reject("label-not-nearest", <<Ev.lab, Chosen(Ev.cs)>>)
  ELSE IF ~Hist THEN Reject("counts-are-no-histogram", <<Ev.lab, Ev.cnt>>)
  ELSE IF ~EnergyIs(Ev.en, Energy(inst.metric, inst.F, P, Chosen(Ev.cs)))
       THEN Reject("total-is-not-the-sum", <<Ev.en, Energy(inst.metric, inst.F, P, Chosen(Ev.cs))>>)
  ELSE ok

DoStart == /\ Ev.e = "Start"
           /\ Judge(/\ hist' = Append(hist, [en |-> Ev.en, lab |-> Ev.lab, cnt |-> Ev.cnt, ch |-> Chosen(Ev.cs)])
                    /\ l' = l + 1 /\ UNCHANGED <<P, ch, best, inst, quant>>)

\* the recorded totals differ by less than what rounding can hide
Tied(a, b) == Abs(a - b) <= IF inst.metric = "eucl" /\ inst.d > 1 THEN 1 ELSE 0
DoResult ==
  /\ Ev.e = "Result"
  /\ Judge(
       IF ~(Ev.best \in 1..Ev.s) THEN Reject("start-number", <<Ev.best, Ev.s>>)
       ELSE IF Ev.s > Len(hist) THEN Reject("driver-start-missing", Ev.s)
       ELSE IF \E x \in 1..Ev.s : hist[x].en < Ev.en /\ ~Tied(hist[x].en, Ev.en)
            THEN Reject("a-start-was-better", <<Ev.en, [x \in 1..Ev.s |-> hist[x].en]>>)
       ELSE IF ~Tied(hist[Ev.best].en, Ev.en) THEN Reject("total-of-another-start", <<Ev.best, Ev.en, hist[Ev.best].en>>)
       ELSE IF hist[Ev.best].lab # Ev.lab \/ hist[Ev.best].ch # Chosen(Ev.cs)
            THEN Reject("clustering-of-another-start", <<Ev.best, Ev.lab, hist[Ev.best].lab>>)
       ELSE IF best.start > 0 /\ Ev.en > best.en THEN Reject("more-starts-made-it-worse", <<Ev.en, best.en>>)
       ELSE /\ best' = [start |-> Ev.best, en |-> Ev.en] /\ l' = l + 1 /\ UNCHANGED <<P, ch, hist, inst, quant>>)

\* Draws from a weighted choice: row i (inst.W[i] equal rows) of M draws is within six
\* standard deviations (and two draws) of what its share of the weights gives.
DoDraw ==
  /\ Ev.e = "Draw"
  /\ LET w == [i \in 1..Len(P) |-> inst.W[i] * Weight(inst.metric, 1, P, Ev.ctx, i)]
         T == SumTo(Len(P), LAMBDA i : w[i])
         M == SumTo(Len(P), LAMBDA i : Ev.obs[i])
         \* (obs - M w/T) in units of 1/T; six standard deviations: 36 M w (T-w) / T^2, all over T^2
         off(i) == Abs(Ev.obs[i] * T - M * w[i])
         lim(i) == 6 * (Isqrt(M * w[i] * (T - w[i])) + 1) + 2 * T
     IN IF \E i \in 1..Len(P) : w[i] = 0 /\ Ev.obs[i] > 0 THEN Reject("chose-a-centre-again", <<Ev.ctx, Ev.obs>>)
        ELSE IF \E i \in 1..Len(P) : off(i) > lim(i) THEN Reject("draws-not-proportional", <<Ev.ctx, Ev.obs, w>>)
        ELSE l' = l + 1 /\ UNCHANGED <<P, ch, best, hist, inst, quant>>

\* The engines seed their generator the same way in every run, so one number per draw
\* explains all runs: the row drawn is the first whose cumulated share reaches it.
\*  Quant   Q = rows of a run, ch = rows it chose
Share(Q, c, y) ==
  LET w == [i \in 1..Len(Q) |-> Weight(inst.metric, 1, Q, SubSeq(c, 1, y - 1), i)]
  IN [a |-> SumTo(c[y] - 1, LAMBDA i : w[i]), b |-> SumTo(c[y], LAMBDA i : w[i]), t |-> SumTo(Len(Q), LAMBDA i : w[i])]
Narrow(q, s) ==
  LET lo == IF s.a * q.ld > q.ln * s.t THEN <<s.a, s.t>> ELSE <<q.ln, q.ld>>
      hi == IF s.b * q.hd < q.hn * s.t THEN <<s.b, s.t>> ELSE <<q.hn, q.hd>>
  IN [ln |-> lo[1], ld |-> lo[2], hn |-> hi[1], hd |-> hi[2]]
Empty(q) == q.ln * q.hd > q.hn * q.ld
DoQuant ==
  /\ Ev.e = "Quant"
  /\ LET new == [y \in 1..inst.k |-> IF y = 1 THEN quant[1] ELSE Narrow(quant[y], Share(Ev.Q, Ev.ch, y))]
     IN IF \E y \in 2..inst.k : Empty(new[y]) THEN Reject("draws-not-proportional", <<Ev.Q, Ev.ch, quant>>)
        ELSE quant' = new /\ l' = l + 1 /\ UNCHANGED <<P, ch, best, hist, inst>>

Finish == l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1 /\ UNCHANGED <<P, ch, best, hist, inst, quant>>
TraceNext == (l <= NLines /\ (DoBegin \/ DoStart \/ DoResult \/ DoDraw \/ DoQuant)) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
