----------------------------- MODULE KMeansTrace -----------------------------
(* Judges recorded runs of the real engines: the runs of one configuration   *)
(* with pass limits 0, 1, 2, ... are one behaviour of KMeans, observed after *)
(* every pass.  Events of a trace (one JSON object per line):                *)
(*  Begin  the instance: P W k d metric tolN tolD F (fixed-point factor);    *)
(*         with L: clustered are the rows scaled to 0..L in every feature    *)
(*  Init   result with limit 0: kind, lab, cs; given = centres the user gave *)
(*  Run    result with limit lim: iters, lab, cnt, cs; meta = rows, columns,  *)
(*         clusters reported, number of labels and of coordinates returned   *)
(* cs[c][j] is the centre coordinate times max(count,1), times F, rounded.   *)
EXTENDS KMeans, MinMax, Json
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLES l, F,
          R,    \* largest coordinate in play: bounds the exact arithmetic
          tied  \* a pass so far had a row with two nearest centres
tvars == <<inst, lab, cen, pass, changed, done, l, F, R, tied>>

Ev == Trace[l]
\* first line after l that belongs to another trace
NextTrace == LET t == Trace[l].tid
                 S == {m \in l..NLines : Trace[m].tid # t}
             IN IF S = {} THEN NLines + 1 ELSE CHOOSE m \in S : \A q \in S : m <= q
Nothing == [P |-> <<>>, W |-> <<>>, k |-> 0, d |-> 0, metric |-> "eucl", tolN |-> 0, tolD |-> 1, limit |-> 0]
TraceInit == /\ inst = Nothing /\ lab = <<>> /\ cen = <<>> /\ pass = 0 /\ changed = 0 /\ done = FALSE
             /\ l = 1 /\ F = 1 /\ R = 1 /\ tied = FALSE

Reject(why, info) ==
  /\ PrintT(<<"REJECT", Ev.tid, l, why, info>>)
  /\ l' = NextTrace
  /\ UNCHANGED <<inst, lab, cen, pass, changed, done, F, R, tied>>

\* ------------------------------------------------------------------ Begin
DoBegin ==
  /\ Ev.e = "Begin"
  /\ inst' = [P |-> IF "L" \in DOMAIN Ev THEN Scaled(Ev.P, Ev.L) ELSE Ev.P, W |-> Ev.W, k |-> Ev.k, d |-> Ev.d, metric |-> Ev.metric,
              tolN |-> Ev.tolN, tolD |-> Ev.tolD, limit |-> 0]
  /\ F' = Ev.F /\ R' = Ev.R /\ tied' = FALSE
  /\ lab' = <<>> /\ cen' = <<>> /\ pass' = 0 /\ changed' = 0 /\ done' = FALSE
  /\ l' = l + 1

\* ------------------------------------------------------------------- Init
Near(a, b) == Abs(a - b) <= 1
IsRow(cs, P) == \E i \in 1..Len(P) : \A j \in 1..Len(cs) : Near(cs[j], F * P[i][j])
RowOf(cs, P) == CHOOSE i \in 1..Len(P) : \A j \in 1..Len(cs) : Near(cs[j], F * P[i][j])
FxIs(cs, c) == \A j \in 1..Len(cs) : cs[j] # 999999999 /\ Abs(cs[j] * c.n - F * c.s[j]) <= c.n

\* kmeans++: every row carries the label of a chosen centre nearest to it, and a
\* centre repeats only if every row coincides with a centre already chosen.
PPLabels == \A i \in 1..Len(inst.P) : Ev.lab[i] \in 1..inst.k
PPDistinct(c) ==
  \A x, y \in 1..inst.k : (x < y /\ c[x] = c[y]) =>
     \A i \in 1..Len(inst.P) : \E z \in 1..(y-1) : c[z].s = inst.P[i]

InitWith(c, l0) ==
  /\ UNCHANGED <<inst, F, R, tied>> /\ lab' = l0 /\ cen' = c /\ pass' = 0 /\ changed' = 0 /\ done' = FALSE
  /\ l' = l + 1

DoInit ==
  /\ Ev.e = "Init"
  /\ CASE Ev.kind = "given" ->
            LET c == [x \in 1..inst.k |-> Rat(Ev.given[x].s, Ev.given[x].n)]
            IN IF \A x \in 1..inst.k : FxIs(Ev.cs[x], c[x])
               THEN InitWith(c, [i \in 1..Len(inst.P) |-> 0])
               ELSE Reject("given-centres-changed", <<Ev.cs, c>>)
       [] Ev.kind = "forgy" ->
            IF \A x \in 1..inst.k : IsRow(Ev.cs[x], inst.P)
            THEN InitWith([x \in 1..inst.k |-> [s |-> inst.P[RowOf(Ev.cs[x], inst.P)], n |-> 1]],
                          [i \in 1..Len(inst.P) |-> 0])
            ELSE Reject("forgy-centre-is-no-row", Ev.cs)
       [] Ev.kind = "random" ->
            IF ~PPLabels THEN Reject("random-partition-label", Ev.lab)
            ELSE LET c == Means(inst.P, inst.W, Ev.lab, inst.k, inst.d)
                 IN IF \A x \in 1..inst.k : FxIs(Ev.cs[x], c[x])
                    THEN InitWith(c, Ev.lab)
                    ELSE Reject("random-partition-centre-is-no-mean", <<Ev.cs, c>>)
       [] Ev.kind = "kmeanspp" ->
            IF ~(\A x \in 1..inst.k : IsRow(Ev.cs[x], inst.P)) THEN Reject("kmeanspp-centre-is-no-row", Ev.cs)
            ELSE LET c == [x \in 1..inst.k |-> [s |-> inst.P[RowOf(Ev.cs[x], inst.P)], n |-> 1]]
                 IN IF ~PPDistinct(c) THEN Reject("kmeanspp-centre-repeated", c)
                    ELSE IF ~PPLabels THEN Reject("kmeanspp-label", Ev.lab)
                    ELSE IF ~Undefined(inst, c) /\ ~IsAssignment(inst, c, Ev.lab)
                         THEN Reject("kmeanspp-label-not-nearest", <<Ev.lab, c>>)
                    ELSE InitWith(c, Ev.lab)
       [] OTHER ->   \* initial centres not observable here: the first pass tells
            InitWith(<<>>, [i \in 1..Len(inst.P) |-> 0])

\* -------------------------------------------------------------------- Run
\* the observation agrees with labels new and the centres they imply
CountsOk(new) == \A c \in 1..inst.k : Ev.cnt[c] = WeightOf(inst.W, new, c)
CentresOk(new) == \A c \in 1..inst.k :
   LET s == SumOf(inst.P, inst.W, new, c, inst.d)
   IN \A j \in 1..inst.d : Near(Ev.cs[c][j], F * s[j])
Shape == /\ Ev.meta = <<Rows(inst), inst.d, inst.k, Rows(inst), inst.k * inst.d>>
         /\ Len(Ev.lab) = Len(inst.P) /\ Len(Ev.cnt) = inst.k /\ Len(Ev.cs) = inst.k
         /\ \A c \in 1..inst.k : Len(Ev.cs[c]) = inst.d
         /\ \A i \in 1..Len(inst.P) : Ev.lab[i] \in 1..inst.k

\* one more pass of the specification explains the observation
Advance ==
  LET in == [inst EXCEPT !.limit = Ev.lim]
      new == Ev.lab
      ch == Changed(in, lab, new, pass = 0)
  IN /\ inst' = in /\ UNCHANGED <<F, R>>
     /\ tied' = (tied \/ (Ev.ties /\ Tie(inst, cen)))
     /\ lab' = new
     /\ cen' = Means(in.P, in.W, new, in.k, in.d)
     /\ pass' = pass + 1
     /\ changed' = ch
     /\ done' = StopRule(in, ch)
     /\ l' = l + 1

\* centres too finely divided for 32-bit comparisons: never within the driver's
\* sizes unless ties mix equal rows, and then nothing is concluded
MaxOver(S) == CHOOSE x \in S : \A y \in S : y <= x
TooFine(c) ==
  IF c = <<>> THEN FALSE
  ELSE IF inst.metric = "cos"
  THEN \E x \in 1..inst.k : LET u == Direction(c[x]) IN \E j \in 1..inst.d : Abs(u[j]) > Ev.ucap
  ELSE LET B == MaxOver({c[x].n : x \in 1..inst.k}) IN B > 4000 \/ B * B > (IF inst.d < 4 THEN 262144 ELSE 900000 \div inst.d) \div R

Skip(why) == PrintT(<<"SKIPPED", Ev.lim, why>>) /\ l' = NextTrace /\ UNCHANGED <<inst, lab, cen, pass, changed, done, F, R, tied>>

DoRun ==
  /\ Ev.e = "Run"
  /\ IF Ev.status # "ok" THEN Reject("run-failed", Ev.status)
     ELSE IF ~done /\ Undefined(inst, cen) THEN Skip("undefined")
     ELSE IF ~done /\ TooFine(cen) THEN Skip("centres-too-fine-for-exact-arithmetic")
     ELSE IF ~Shape THEN Reject("bad-shape-or-label", <<Ev.meta, Ev.lab>>)
     ELSE IF ~CountsOk(Ev.lab) THEN Reject("counts-are-no-histogram", <<Ev.lab, Ev.cnt>>)
     ELSE IF ~CentresOk(Ev.lab) THEN Reject("centre-is-no-mean", <<Ev.lab, Ev.cs>>)
     ELSE IF done \/ pass >= Ev.lim THEN
          \* no pass left: the result of a larger limit is the same
          IF Ev.iters # pass THEN Reject("iterations-reported", <<Ev.iters, pass, done>>)
          ELSE IF Ev.lab # lab THEN Reject("pass-after-the-end", <<lab, Ev.lab>>)
          ELSE l' = l + 1 /\ UNCHANGED <<inst, lab, cen, pass, changed, done, F, R, tied>>
     ELSE IF pass + 1 # Ev.lim THEN Reject("stopped-late", <<pass, Ev.lim>>)
     ELSE IF ~IsAssignment(inst, cen, Ev.lab) THEN Reject("label-not-nearest", <<lab, Ev.lab, cen>>)
     ELSE IF Ev.iters # pass + 1 THEN Reject("iterations-reported", <<Ev.iters, pass + 1>>)
     ELSE Advance

Finish == l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1
          /\ UNCHANGED <<inst, lab, cen, pass, changed, done, F, R, tied>>
\* -------------------------------------------------------------------- Alt
\* Another engine, thread count or data placement, same limit as the event
\* before: the same observation, unless a tie left the choice open.
DoAlt ==
  /\ Ev.e = "Alt"
  /\ IF tied THEN Skip("tied")
     ELSE IF Ev.status # "ok" THEN Reject("run-failed", Ev.status)
     ELSE IF Ev.lim = 0 /\ \E c \in 1..inst.k : \E j \in 1..inst.d : ~FxIs(Ev.cs[c], cen[c])
          THEN Reject("variant-starts-elsewhere", <<Ev.variant, Ev.cs, cen>>)
     ELSE IF Ev.lim > 0 /\ ~Shape THEN Reject("bad-shape-or-label", <<Ev.variant, Ev.lab>>)
     ELSE IF Ev.lim > 0 /\ Ev.lab # lab THEN Reject("variant-labels-differ", <<Ev.variant, lab, Ev.lab>>)
     ELSE IF Ev.lim > 0 /\ Ev.iters # pass THEN Reject("variant-iterations-differ", <<Ev.variant, Ev.iters, pass>>)
     ELSE IF Ev.lim > 0 /\ ~CountsOk(lab) THEN Reject("variant-counts-differ", <<Ev.variant, Ev.cnt>>)
     ELSE IF Ev.lim > 0 /\ ~CentresOk(lab) THEN Reject("variant-centres-differ", <<Ev.variant, Ev.cs>>)
     ELSE l' = l + 1 /\ UNCHANGED <<inst, lab, cen, pass, changed, done, F, R, tied>>

TraceNext == (l <= NLines /\ (DoBegin \/ DoInit \/ DoRun \/ DoAlt)) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
