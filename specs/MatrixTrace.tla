---------------------------- MODULE MatrixTrace ----------------------------
(* Judges recorded matrix operations.  Three registers hold matrices.  An    *)
(* observation is a matrix, a vector, a number or "X" (refused).  Numbers    *)
(* are reported as 1000 times the value the code gave, rounded.              *)
EXTENDS Matrix, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLES l, reg
tvars == <<l, reg>>
Ev == Trace[l]
NextTrace == LET t == Trace[l].tid
                 S == {m \in l..NLines : Trace[m].tid # t}
             IN IF S = {} THEN NLines + 1 ELSE CHOOSE m \in S : \A q \in S : m <= q
Reject(why, info) == PrintT(<<"REJECT", Ev.tid, l, why, info>>) /\ l' = NextTrace /\ reg' = reg
TraceInit == l = 1 /\ reg = <<Empty, Empty, Empty>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
A == reg[Ev.a]
B == reg[Ev.b]
C == reg[Ev.c]
F == 1000
FMat(x) == [r |-> x.r, c |-> x.c, m |-> [i \in 1..x.r |-> [j \in 1..x.c |-> F * x.m[i][j]]]]
\* the operation made register Ev.a the matrix x, and shows it
Becomes(x) == IF Ev.kind = "M" /\ Ev.obs = FMat(x) THEN reg' = [reg EXCEPT ![Ev.a] = x] /\ l' = l + 1
              ELSE Reject(Ev.op \o "-differs", <<Ev.kind, Ev.obs, x>>)
Shows(ok, x) == IF ok THEN reg' = reg /\ l' = l + 1 ELSE Reject(Ev.op \o "-differs", <<Ev.kind, Ev.obs, x>>)
IsVec(v) == Shows(Ev.kind = "V" /\ Ev.obs = [i \in DOMAIN v |-> F * v[i]], v)
\* v divided by n, to the rounding of the report
IsVecOver(v, n) == Shows(Ev.kind = "V" /\ Len(Ev.obs) = Len(v) /\ \A i \in DOMAIN v : Abs(2 * (n * Ev.obs[i] - F * v[i])) <= Abs(n) + 1, <<v, n>>)
IsNum(x) == Shows(Ev.kind = "S" /\ Ev.obs = <<F * x>>, x)
IsRoot(x) == Shows(Ev.kind = "Q" /\ Ev.obs = <<x>>, x)     \* Q: square of the number, as integer
Refused == Shows(Ev.kind = "X", "refusal")
Div(x, y) == (IF (x < 0) = (y < 0) THEN 1 ELSE -1) * (Abs(x) \div Abs(y))
ByRow(a, v, e) == Mat(a.r, a.c, LAMBDA i, j : PowInt(Div(a.m[i][j], v[i]), e))
ByCol(a, v, e) == Mat(a.r, a.c, LAMBDA i, j : PowInt(Div(a.m[i][j], v[j]), e))
\* standard score: z = (x - mean) / deviation, all zero for constant values.
\* With n values of sum s and n * (sum of squares) - s^2 = d:  z^2 d = (n x - s)^2
ScoreOk(v, z) == LET n == Len(v)
                     s == SumTo(n, LAMBDA i : v[i])
                     d == n * Dot(v, v) - s * s
                 IN IF d = 0 THEN \A i \in 1..n : z[i] = 0
                    ELSE \A i \in 1..n : LET y == n * v[i] - s
                                             q == Ev.sq[i]       \* 1000 * z^2
                                         IN /\ Abs(q * d - F * y * y) <= 2 * d
                                            /\ (y > 0 => z[i] >= 0) /\ (y < 0 => z[i] <= 0)
TraceNext ==
  \/ /\ l <= NLines
     /\ CASE Ev.e = "Begin" -> reg' = <<Empty, Empty, Empty>> /\ l' = l + 1
          [] Ev.e = "Crash" -> Reject("operation-failed", Ev.info)
          [] Ev.e = "Op" ->
             CASE Ev.op = "load" -> Becomes(Rect(Ev.r, Ev.k, Ev.v))
               [] Ev.op = "loadz" -> Becomes(Zero(Ev.r, Ev.k))
               [] Ev.op = "clone" -> Becomes(B)
               [] Ev.op = "copy" -> Becomes(B)
               [] Ev.op = "setrow" -> Becomes([A EXCEPT !.m[Ev.r] = Ev.v])
               [] Ev.op = "put" -> Becomes([A EXCEPT !.m[Ev.r][Ev.k] = Ev.v[1]])
               [] Ev.op = "bump" -> Becomes([A EXCEPT !.m[Ev.r][Ev.k] = @ + Ev.v[1]])
               [] Ev.op = "zero" -> Becomes(Zero(A.r, A.c))
               [] Ev.op = "mul" -> Becomes(Mul(B, C))
               [] Ev.op = "add" -> Becomes(Add(B, C))
               [] Ev.op = "sub" -> Becomes(Sub(B, C))
               [] Ev.op = "pluseq" -> Becomes(Add(A, B))
               [] Ev.op = "subv" -> Becomes(Mat(B.r, B.c, LAMBDA i, j : B.m[i][j] - Ev.v[i]))
               [] Ev.op = "divs" -> Becomes(Mat(A.r, A.c, LAMBDA i, j : Div(A.m[i][j], Ev.v[1])))
               [] Ev.op = "divv" -> IF A.r = A.c \/ Len(Ev.v) \notin {A.r, A.c} THEN Refused
                                    ELSE IF Len(Ev.v) = A.r THEN Becomes(ByRow(A, Ev.v, 1)) ELSE Becomes(ByCol(A, Ev.v, 1))
               [] Ev.op = "diveq" -> IF Ev.r = 0 /\ Len(Ev.v) = A.c THEN Becomes(ByCol(A, Ev.v, 1))
                                     ELSE IF Ev.r = 1 /\ Len(Ev.v) = A.r THEN Becomes(ByRow(A, Ev.v, 1)) ELSE Refused
               [] Ev.op = "divpow" -> IF Ev.r = 0 /\ Len(Ev.v) = A.c THEN Becomes(ByCol(A, Ev.v, Ev.k))
                                      ELSE IF Ev.r = 1 /\ Len(Ev.v) = A.r THEN Becomes(ByRow(A, Ev.v, Ev.k)) ELSE Refused
               [] Ev.op = "pow" -> Becomes(Mat(A.r, A.c, LAMBDA i, j : PowInt(A.m[i][j], Ev.v[1])))
               [] Ev.op = "mean" -> IF Ev.r = 1 THEN IsVecOver(ColSums(A), A.r) ELSE IsVecOver(RowSums(A), A.c)
               [] Ev.op = "sumx" -> IF Ev.r = 0 THEN IsVec(ColSums(A)) ELSE IF Ev.r = 1 THEN IsVec(RowSums(A)) ELSE Refused
               [] Ev.op = "sum" -> IsNum(Total(A))
               [] Ev.op = "fro" -> IsRoot(Squares(A))
               [] Ev.op = "eq" -> IsNum(IF A = B THEN 1 ELSE 0)
               [] Ev.op = "argmax" -> IF Ev.r = 0 THEN IsVec([i \in 1..A.r |-> RowArgMax(A)[i] - 1])
                                      ELSE IF Ev.r = 1 THEN IsVec([i \in 1..A.c |-> ColArgMax(A)[i] - 1]) ELSE Refused
               [] Ev.op = "det" -> IsNum(Det(A))
               [] Ev.op = "adj" -> Becomes(Adj(B))
               [] Ev.op = "inv" -> LET n == A.r   dt == Det(A)   x == Adj(A)
                                   IN IF dt = 0 THEN Shows(Ev.kind = "V" /\ Ev.obs = <<>>, "singular")
                                      ELSE IsVecOver([q \in 1..(n * n) |-> x.m[((q - 1) \div n) + 1][((q - 1) % n) + 1]], dt)
               [] Ev.op = "vdiff" -> LET h == Len(Ev.v) \div 2 IN IsVec([i \in 1..h |-> Ev.v[i] - Ev.v[h + i]])
               [] Ev.op = "vpeq" -> LET h == Len(Ev.v) \div 2 IN IsVec([i \in 1..h |-> Ev.v[i] + Ev.v[h + i]])
               [] Ev.op = "vfro" -> IsRoot(Dot(Ev.v, Ev.v))
               [] Ev.op = "vdot" -> LET h == Len(Ev.v) \div 2 IN IsNum(SumTo(h, LAMBDA i : Ev.v[i] * Ev.v[h + i]))
               [] Ev.op = "vmat" -> IsVec(VecMat(Ev.v, A))
               [] Ev.op = "vtimes" -> IsVec([i \in DOMAIN Ev.v |-> Ev.v[i] * Ev.r])
               [] Ev.op = "zscore" -> Shows(Ev.kind = "V" /\ Len(Ev.obs) = Len(Ev.v) /\ ScoreOk(Ev.v, Ev.obs), Ev.sq)
  \/ l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1 /\ reg' = reg
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
