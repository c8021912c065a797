----------------------------- MODULE ResultFile ------------------------------
(* The result file of a clustering: a sequence of tokens.  A result is a      *)
(* record  k, iters, nrow, ncol  (numbers),  size (k counts),  lab (a label   *)
(* for every row),  cen (k rows of ncol values).                             *)
EXTENDS Naturals, Sequences, FiniteSets
Sym(s) == [t |-> "sym", v |-> s]
Int(n) == [t |-> "int", v |-> n]
Val(x) == [t |-> "val", v |-> x]
\* a list of tokens between brackets, separated
ListOf(s) == [p \in 1..(IF s = <<>> THEN 2 ELSE 2 * Len(s) + 1) |->
                IF p = 1 THEN Sym("[") ELSE IF s = <<>> \/ p = 2 * Len(s) + 1 THEN Sym("]")
                ELSE IF p % 2 = 0 THEN s[p \div 2] ELSE Sym(",")]
RowToks(r, c) == ListOf([j \in 1..r.ncol |-> Val(r.cen[c][j])])
RowLen(r) == IF r.ncol = 0 THEN 2 ELSE 2 * r.ncol + 1
\* the rows of centres: each row is a list itself, so positions are computed
CenToks(r) ==
  LET w == RowLen(r) + 1           \* a row and the separator before it (the bracket for the first)
  IN [p \in 1..(IF r.k = 0 THEN 2 ELSE r.k * w + 1) |->
        IF p = 1 THEN Sym("[")
        ELSE IF r.k = 0 \/ p = r.k * w + 1 THEN Sym("]")
        ELSE LET c == (p - 1) \div w + 1  q == (p - 1) % w
             IN IF q = 0 THEN Sym(",") ELSE RowToks(r, c)[q]]
Format(r) == <<Sym("k:"), Int(r.k), Sym("niter:"), Int(r.iters), Sym("nsamples:"), Int(r.nrow), Sym("dim:"), Int(r.ncol),
               Sym("size:")>> \o ListOf([c \in 1..r.k |-> Int(r.size[c])])
             \o <<Sym("cluster:")>> \o ListOf([i \in 1..r.nrow |-> Int(r.lab[i])])
             \o <<Sym("centroids:")>> \o CenToks(r)
Wellformed(r) == Len(r.size) = r.k /\ Len(r.lab) = r.nrow /\ Len(r.cen) = r.k /\ \A c \in 1..r.k : Len(r.cen[c]) = r.ncol

\* what a reader of the file gets
ListLen(n) == IF n = 0 THEN 2 ELSE 2 * n + 1
Parse(f) ==
  LET k == f[2].v  n == f[6].v  d == f[8].v
      p1 == 9                          \* before the list of sizes
      p2 == p1 + ListLen(k) + 1        \* before the list of labels
      p3 == p2 + ListLen(n) + 1        \* before the centres
      w == (IF d = 0 THEN 2 ELSE 2 * d + 1) + 1
  IN [k |-> k, iters |-> f[4].v, nrow |-> n, ncol |-> d,
      size |-> [c \in 1..k |-> f[p1 + 2 * c].v],
      lab |-> [i \in 1..n |-> f[p2 + 2 * i].v],
      cen |-> [c \in 1..k |-> [j \in 1..d |-> f[p3 + 1 + (c - 1) * w + 2 * j].v]]]
=============================================================================
