------------------------------- MODULE KMeans -------------------------------
(* Exact k-means as the engines promise it: Lloyd's algorithm with its       *)
(* stopping rule.  One action per pass.  An instance groups rows: group i    *)
(* stands for W[i] rows that all equal the integer point P[i].               *)
EXTENDS Lloyd, TLC

VARIABLES
  inst,   \* [P, W, k, d, metric, tolN, tolD, limit]: fixed during a run
  lab,    \* label of each group, 0 = not assigned yet
  cen,    \* current centres (rational vectors)
  pass,   \* passes performed
  changed,\* rows whose label changed in the last pass
  done    \* the stopping rule fired
kvars == <<inst, lab, cen, pass, changed, done>>

Rows(in) == SumTo(Len(in.W), LAMBDA i : in.W[i])

\* Rows whose label differs; the first pass assigns every row anew.
Changed(in, old, new, first) ==
  IF first THEN Rows(in)
  ELSE SumTo(Len(new), LAMBDA i : IF old[i] # new[i] THEN in.W[i] ELSE 0)

StopRule(in, ch) == ch = 0 \/ ch * in.tolD <= in.tolN * Rows(in)

\* new is a possible outcome of the assignment step from centres c
IsAssignment(in, c, new) ==
  LET bis == IF in.metric \in {"eucl", "sqeucl"} THEN Bisectors(c) ELSE <<>>
  IN \A i \in 1..Len(in.P) : new[i] \in 1..in.k /\ Nearest(in.metric, in.P[i], new[i], c, bis)

\* The outcome of a pass is undefined when the metric is: the cosine with a zero vector.
Undefined(in, c) == in.metric = "cos" /\ \E x \in 1..in.k : IsZero(c[x])

\* some row has two nearest centres
Tie(in, c) ==
  LET bis == IF in.metric \in {"eucl", "sqeucl"} THEN Bisectors(c) ELSE <<>>
  IN \E i \in 1..Len(in.P) : \E x, y \in 1..in.k :
       x < y /\ Nearest(in.metric, in.P[i], x, c, bis) /\ Nearest(in.metric, in.P[i], y, c, bis)

Pass(new) ==
  /\ ~done
  /\ pass < inst.limit
  /\ IsAssignment(inst, cen, new)
  /\ lab' = new
  /\ cen' = Means(inst.P, inst.W, new, inst.k, inst.d)
  /\ pass' = pass + 1
  /\ changed' = Changed(inst, lab, new, pass = 0)
  /\ done' = StopRule(inst, changed')
  /\ UNCHANGED inst

Start(in, c, l0) ==
  /\ inst = in /\ lab = l0 /\ cen = c /\ pass = 0 /\ changed = 0 /\ done = FALSE
=============================================================================
