----------------------------- MODULE AccumTrace -----------------------------
(* Judges recorded operation sequences on the real accumulators.             *)
(*  Begin{ty,k,d,na}; Op{op,a,b,c,c2,v,x,res,obs,prev,pd,sv}                  *)
(*  obs: clusters as read afterwards [n, fin, q] with q = coordinate times    *)
(*  the divisor that n and fin call for; prev: saved means * F               *)
EXTENDS Accum, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
F == 5040
VARIABLES l, A, ty, d,
          prev,   \* prev[a]: saved means as [s, n] per cluster
          pd, sv  \* last stored drift and threshold ("max" when reset)
tvars == <<l, A, ty, d, prev, pd, sv>>
Ev == Trace[l]
NextTrace == LET t == Trace[l].tid
                 S == {m \in l..NLines : Trace[m].tid # t}
             IN IF S = {} THEN NLines + 1 ELSE CHOOSE m \in S : \A q \in S : m <= q
Reject(why, info) == PrintT(<<"REJECT", Ev.tid, l, why, info>>) /\ l' = NextTrace /\ UNCHANGED <<A, ty, d, prev, pd, sv>>
TraceInit == l = 1 /\ A = <<>> /\ ty = "plain" /\ d = 1 /\ prev = <<>> /\ pd = <<>> /\ sv = <<>>
Read(acc) == [c \in DOMAIN acc |-> [n |-> acc[c].n, fin |-> acc[c].fin, q |-> acc[c].s]]
Abs(x) == IF x < 0 THEN -x ELSE x
\* a sparse accumulator may have grown further than needed, by empty clusters
Padded(y, n) == [c \in 1..n |-> IF c <= Len(y) THEN y[c] ELSE Empty(d)]
Snap(x) == [c \in DOMAIN x |-> [s |-> x[c].s, n |-> Divisor(x[c])]]
PrevOk(p, obs) == \A c \in DOMAIN p : \A j \in 1..d : Abs(obs[c][j] * p[c].n - F * p[c].s[j]) <= p[c].n
DoOp ==
  LET o == Ev
      y0 == Meaning(A, o, d)
      y == IF ty = "sparse" THEN Padded(y0, Max(Len(y0), Len(o.obs))) ELSE y0
      p1 == IF o.op = "setprev" THEN [prev EXCEPT ![o.a] = Snap(y)] ELSE prev
      pd1 == IF o.op = "setpd" THEN [pd EXCEPT ![o.a] = [@ EXCEPT ![o.c] = o.x]] ELSE pd
      sv1 == IF o.op = "sets" THEN [sv EXCEPT ![o.a] = [@ EXCEPT ![o.c] = o.x]]
             ELSE IF o.op = "resets" THEN [sv EXCEPT ![o.a] = [c \in DOMAIN @ |-> 1000000]] ELSE sv
  IN IF o.res = "crash" THEN Reject("operation-failed", o.op)
     \* how far a sparse accumulator grows is its own affair, and decides what may follow
     ELSE IF ~Legal(A, o, ty) /\ ty = "sparse"
          THEN PrintT(<<"SKIPPED", l, "sparse-grew">>) /\ l' = NextTrace /\ UNCHANGED <<A, ty, d, prev, pd, sv>>
     ELSE IF ~Legal(A, o, ty) THEN Reject("driver-broke-the-contract", o)
     ELSE IF o.res # "ok" THEN Reject("operation-refused", o)
     ELSE IF Len(o.obs) # Len(y) THEN Reject("number-of-clusters", <<Len(o.obs), Len(y)>>)
     ELSE IF o.obs # Read(y) THEN Reject("accumulator-differs", <<o.op, o.obs, Read(y)>>)
     ELSE IF ty = "prune" /\ ~PrevOk(p1[o.a], o.prev) THEN Reject("saved-means-differ", <<o.op, o.prev, p1[o.a]>>)
     ELSE IF ty = "prune" /\ (o.pd # pd1[o.a] \/ o.sv # sv1[o.a]) THEN Reject("drift-or-threshold-differs", <<o.op, o.pd, o.sv>>)
     ELSE /\ A' = [A EXCEPT ![o.a] = y] /\ prev' = p1 /\ pd' = pd1 /\ sv' = sv1
          /\ UNCHANGED <<ty, d>> /\ l' = l + 1
TraceNext ==
  \/ /\ l <= NLines
     /\ CASE Ev.e = "Begin" ->
               /\ ty' = Ev.ty /\ d' = Ev.d /\ l' = l + 1
               /\ A' = [a \in 1..Ev.na |-> [c \in 1..Ev.k |-> Empty(Ev.d)]]
               /\ prev' = [a \in 1..Ev.na |-> [c \in 1..Ev.k |-> [s |-> [j \in 1..Ev.d |-> 0], n |-> 1]]]
               /\ pd' = [a \in 1..Ev.na |-> [c \in 1..Ev.k |-> 0]]
               /\ sv' = [a \in 1..Ev.na |-> [c \in 1..Ev.k |-> 1000000]]
          [] Ev.e = "Op" -> DoOp
  \/ l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1 /\ UNCHANGED <<A, ty, d, prev, pd, sv>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
