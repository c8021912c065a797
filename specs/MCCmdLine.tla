----------------------------- MODULE MCCmdLine -----------------------------
(* A program as the steps it takes: parse, look at the files, create the     *)
(* engine (which checks metric, initialisation and k), run, write.  For all  *)
(* arguments it writes exactly when they are usable, and it never ends with  *)
(* success after refusing anything but a call for help.                      *)
(* Bug "fallback": an unknown metric is taken as Euclidean; "nocentres": a   *)
(* missing file of centres is ignored; "latecheck": k is checked after the   *)
(* result is written; "nonewithout": "none" runs without centres.            *)
EXTENDS CmdLine, TLC
CONSTANT Bug
VARIABLES a, pc, wrote, rc
vars == <<a, pc, wrote, rc>>
Args == [prog : {"knori", "fcm"}, omp : BOOLEAN, unknown : BOOLEAN, data : {"missing", "short", "ok"},
         cfile : {"none", "missing", "short", "ok"}, k : {0, 2}, init : {"random", "forgy", "none", "foo"},
         dist : {"eucl", "taxi", "foo"}, tol : {"num", "word"}, nargs : {"enough", "few", "help"}]
Init == a \in Args /\ (a.omp => a.prog = "knori") /\ pc = "parse" /\ wrote = FALSE /\ rc = 0
Refuse == pc' = "end" /\ rc' = 1 /\ UNCHANGED <<a, wrote>>
Go(p) == pc' = p /\ UNCHANGED <<a, wrote, rc>>
Parse == pc = "parse" /\ IF a.unknown THEN Refuse
                         ELSE IF a.nargs # "enough" THEN pc' = "end" /\ UNCHANGED <<a, wrote, rc>>
                         ELSE Go("files")
Files == pc = "files" /\ IF a.data # "ok" \/ a.tol # "num" THEN Refuse
                         ELSE IF a.cfile = "missing" /\ Bug # "nocentres" THEN Refuse
                         ELSE IF a.cfile = "short" THEN Refuse
                         ELSE IF a.cfile = "none" /\ a.init = "none" /\ Bug # "nonewithout" THEN Refuse
                         ELSE Go("create")
\* given centres the kind of initialisation is not looked at
Create == pc = "create" /\ IF a.dist \notin Metrics(a.prog, a.omp) /\ Bug # "fallback" THEN Refuse
                           ELSE IF a.cfile # "ok" /\ a.init \notin Inits \cup {"none"} THEN Refuse
                           ELSE IF a.k = 0 /\ Bug # "latecheck" THEN Refuse
                           ELSE Go("write")
Write == pc = "write" /\ wrote' = TRUE /\ pc' = "end" /\ rc' = (IF a.k = 0 THEN 1 ELSE 0) /\ a' = a
Next == Parse \/ Files \/ Create \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AtEnd == pc = "end"
WritesWhenUsable == AtEnd => (wrote <=> Usable(a))
Status == AtEnd => (rc = 0 <=> (Usable(a) \/ (a.nargs # "enough" /\ ~a.unknown)))
Ends == <>AtEnd
=============================================================================
