------------------------------- MODULE Accum -------------------------------
(* Cluster accumulators.  An accumulator is a sequence of clusters; a        *)
(* cluster is [n: count, s: exact sum of its members, fin: finalised?].      *)
(* Members may be taken out that were never put in (the pruned engines keep  *)
(* differences), so counts and sums are signed.  Apply and Legal give the    *)
(* meaning of every operation; Legal is the caller's contract.               *)
EXTENDS Integers, Sequences
Empty(d) == [n |-> 0, s |-> [j \in 1..d |-> 0], fin |-> FALSE]
VAdd(u, v) == [j \in DOMAIN u |-> u[j] + v[j]]
VSub(u, v) == [j \in DOMAIN u |-> u[j] - v[j]]
Put(cl, v) == [cl EXCEPT !.n = @ + 1, !.s = VAdd(@, v)]
Take(cl, v) == [cl EXCEPT !.n = @ - 1, !.s = VSub(@, v)]
Join(x, y) == [x EXCEPT !.n = @ + y.n, !.s = VAdd(@, y.s)]
Max(a, b) == IF a > b THEN a ELSE b
Grow(acc, k, d) == [c \in 1..Max(k, Len(acc)) |-> IF c <= Len(acc) THEN acc[c] ELSE Empty(d)]
At(acc, c, cl) == [acc EXCEPT ![c] = cl]
SetFin(acc, b) == [c \in DOMAIN acc |-> [acc[c] EXCEPT !.fin = b]]

\* ----------------------------------------------------- meaning of operations
\* A: all accumulators (a sequence); o: the operation, o.a the accumulator it is called on
Meaning(A, o, d) ==
  LET x == A[o.a] IN
  CASE o.op \in {"add", "addit"} -> LET y == Grow(x, o.c, d) IN At(y, o.c, Put(y[o.c], o.v))
    [] o.op \in {"rem", "remit"} -> At(x, o.c, Take(x[o.c], o.v))
    [] o.op \in {"swap", "swapit"} ->
         LET y == At(x, o.c, Take(x[o.c], o.v)) IN At(y, o.c2, Put(y[o.c2], o.v))
    [] o.op \in {"peq", "pluseq", "sums"} ->
         LET b == A[o.b]  y == Grow(x, Len(b), d)
         IN [c \in DOMAIN y |-> IF c <= Len(b) THEN Join(y[c], b[c]) ELSE y[c]]
    [] o.op = "fin" -> At(x, o.c, [x[o.c] EXCEPT !.fin = TRUE])
    [] o.op = "unfin" -> At(x, o.c, [x[o.c] EXCEPT !.fin = FALSE])
    [] o.op = "finall" -> SetFin(x, TRUE)
    [] o.op = "unfinall" -> SetFin(x, FALSE)
    [] o.op = "clear" -> [c \in DOMAIN x |-> Empty(d)]
    [] OTHER -> x

Has(x, c) == c \in 1..Len(x)
AllOpen(x) == \A c \in DOMAIN x : ~x[c].fin
\* the caller's contract: only open accumulators take members; a merge adds sums
Legal(A, o, ty) ==
  LET x == A[o.a] IN
  CASE o.op = "add" -> IF ty = "sparse" /\ ~Has(x, o.c) THEN TRUE ELSE Has(x, o.c) /\ ~x[o.c].fin
    [] o.op \in {"addit", "rem", "remit"} -> Has(x, o.c) /\ ~x[o.c].fin
    [] o.op \in {"swap", "swapit"} -> Has(x, o.c) /\ Has(x, o.c2) /\ ~x[o.c].fin /\ ~x[o.c2].fin
    [] o.op = "peq" -> o.b # o.a /\ AllOpen(x) /\ AllOpen(A[o.b]) /\ (ty = "sparse" \/ Len(x) = Len(A[o.b]))
    [] o.op \in {"pluseq", "sums"} -> ty # "sparse" /\ o.b # o.a /\ AllOpen(x) /\ AllOpen(A[o.b]) /\ Len(x) = Len(A[o.b])
    [] o.op \in {"fin", "unfin"} -> Has(x, o.c)
    [] o.op \in {"setprev", "setpd", "sets", "resets"} -> ty = "prune"
    [] OTHER -> TRUE

\* what a reader of the accumulator sees: the coordinate is s/Divisor
Divisor(cl) == IF cl.fin /\ cl.n > 1 THEN cl.n ELSE 1
=============================================================================
