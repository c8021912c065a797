------------------------------ MODULE CmdLine ------------------------------
(* When a program may work on its arguments, and when it must refuse them.   *)
(* Arguments a: prog, omp, unknown (an option the program does not have),    *)
(* data / cfile ("none", "missing", "short", "ok"), k, init, dist, tol       *)
(* ("num" or "word"), nargs ("enough", "few", "help").                       *)
EXTENDS Integers, FiniteSets
Progs == {"knori", "mb_knori", "fcm", "skmeans", "hmeans", "xmeans", "gmeans", "medoids", "kmeanspp", "knord"}
Metrics(p, omp) == IF omp THEN {"eucl", "cos"} ELSE {"eucl", "cos", "taxi", "sqeucl"}
HasInit(p) == p \in {"knori", "mb_knori", "knord"}
Inits == {"random", "forgy", "kmeanspp"}
\* a file of centres replaces any kind of initialisation
Usable(a) == /\ a.nargs = "enough" /\ ~a.unknown /\ a.data = "ok" /\ a.k > 0
             /\ a.dist \in Metrics(a.prog, a.omp) /\ a.tol = "num"
             /\ a.cfile \in {"none", "ok"}
             /\ (a.cfile = "ok" \/ a.init \in Inits)
=============================================================================
