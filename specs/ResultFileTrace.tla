--------------------------- MODULE ResultFileTrace ---------------------------
(* Judges result files.  A value is a sign, a 9 digit mantissa and an         *)
(* exponent (neg, m, e), or a word for values that are not numbers (s).  The *)
(* file prints six digits, so a printed value may differ by half a unit of   *)
(* the sixth digit.  Events (one per trace):                                 *)
(*  File  res toks       a result object and the tokens of the file written  *)
(*  Run   prog args ran res toks wrote other : a program's file, and the     *)
(*        result of the library for the same parameters (res); wrote: the    *)
(*        file is where it was asked for; other: any other file written      *)
(*  Quiet prog ran other : a run without an output directory                 *)
EXTENDS ResultFile, Integers, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLES l
Ev == Trace[l]
TraceInit == l = 1
Reject(why, info) == PrintT(<<"REJECT", Ev.tid, l, why, info>>) /\ l' = l + 1
Abs(x) == IF x < 0 THEN -x ELSE x
\* half a unit of the sixth of nine digits, and the rounding of the mantissas
Tol == 502
Sign(a) == IF a.m = 0 THEN 0 ELSE IF a.neg THEN -1 ELSE 1
SameValue(a, b) ==
  IF a.s # "" \/ b.s # "" THEN a.s = b.s
  ELSE IF a.m = 0 \/ b.m = 0 THEN a.m = b.m
  ELSE /\ Sign(a) = Sign(b)
       /\ \/ a.e = b.e /\ Abs(a.m - b.m) <= Tol
          \/ a.e = b.e + 1 /\ a.m - 100000000 <= Tol /\ 999999999 - b.m <= 10 * Tol
          \/ b.e = a.e + 1 /\ b.m - 100000000 <= Tol /\ 999999999 - a.m <= 10 * Tol
Match(want, got) == IF want.t = "val" THEN got.t = "num" /\ SameValue(want.v, got)
                    ELSE IF want.t = "int" THEN got.t = "num" /\ got.text = ToString(want.v)
                    ELSE got.t = "sym" /\ got.text = want.v
Compare(res, toks) ==
  IF ~Wellformed(res) THEN "library-result-shape"
  ELSE LET f == TLCEval(Format(res))
           bad == {p \in 1..Len(f) : p > Len(toks) \/ ~Match(f[p], toks[p])}
       IN IF bad = {} THEN IF Len(toks) = Len(f) THEN "" ELSE "file-too-long"
          ELSE LET p == CHOOSE x \in bad : \A y \in bad : x <= y
                   upto == {q \in 1..p : f[q].t = "sym" /\ f[q].v \notin {"[", "]", ","}}
               IN "file-differs-in-" \o f[CHOOSE q \in upto : \A z \in upto : z <= q].v
Judge(res, toks) == LET c == Compare(res, toks) IN IF c = "" THEN l' = l + 1 ELSE Reject(c, <<res, Len(toks)>>)
DoFile == Ev.e = "File" /\ IF ~Ev.ran THEN Reject("write-failed", 0) ELSE Judge(Ev.res, Ev.toks)
DoRun == /\ Ev.e = "Run"
         /\ IF ~Ev.ran THEN Reject("program-failed", Ev.args)
            ELSE IF ~Ev.wrote THEN Reject("file-not-where-asked", Ev.args)
            ELSE IF Ev.other # 0 THEN Reject("other-file-written", Ev.args)
            ELSE Judge(Ev.res, Ev.toks)
DoQuiet == Ev.e = "Quiet" /\ IF ~Ev.ran THEN Reject("program-failed", Ev.args)
                             ELSE IF Ev.other # 0 THEN Reject("other-file-written", Ev.args) ELSE l' = l + 1
Finish == l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1
TraceNext == (l <= NLines /\ (DoFile \/ DoRun \/ DoQuiet)) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
