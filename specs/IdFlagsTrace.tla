---------------------------- MODULE IdFlagsTrace ----------------------------
(* Judges recorded operation sequences on the real bookkeeping objects.      *)
EXTENDS IdFlags, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLES l, kind, st, e
tvars == <<l, kind, st, e>>
Ev == Trace[l]
NextTrace == LET t == Trace[l].tid
                 S == {m \in l..NLines : Trace[m].tid # t}
             IN IF S = {} THEN NLines + 1 ELSE CHOOSE m \in S : \A q \in S : m <= q
Reject(why, info) == PrintT(<<"REJECT", Ev.tid, l, why, info>>) /\ l' = NextTrace /\ UNCHANGED <<kind, st, e>>
TraceInit == l = 1 /\ kind = "" /\ st = <<>> /\ e = 0
Go(new) == st' = new /\ l' = l + 1 /\ UNCHANGED <<kind, e>>
B(x) == IF x THEN 1 ELSE 0
SeqSet(s) == {s[i] : i \in 1..Len(s)}
\* --- ids: st is the sequence of ids in use
IdOp == IF Ev.op = "get"
        THEN IF MayHandOut(SeqSet(st), Ev.l, Ev.r) THEN Go(st \o <<Ev.l, Ev.r>>)
             ELSE Reject("id-zero-or-in-use", <<st, Ev.l, Ev.r>>)
        ELSE IF st[Ev.i] # Ev.id THEN Reject("driver-lost-track", <<st, Ev>>)
             ELSE Go(SubSeq(st, 1, Ev.i - 1) \o SubSeq(st, Ev.i + 1, Len(st)))
\* --- flags
FlagOp == LET new == IF Ev.op = "set" THEN FlagSet(st, Ev.i, Ev.b) ELSE FlagCheckSet(st, Ev.i, Ev.b)
          IN IF Ev.obs = [j \in 1..Len(new) |-> B(new[j])] THEN Go(new) ELSE Reject("flags-differ", <<Ev.op, Ev.obs, new>>)
\* --- map
MapOp ==
  LET new == CASE Ev.op \in {"put", "putat"} -> MapPut(st, Ev.i, Ev.x, e)
               [] Ev.op = "erase" -> MapErase(st, Ev.i, e)
               [] Ev.op = "clear" -> MapFresh(Len(st), e)
               [] Ev.op = "cap" -> MapFresh(Ev.i, e)
               [] OTHER -> st
      keys == MapKeys(new, e)
  IN IF Ev.vals # new THEN Reject("map-values-differ", <<Ev.op, Ev.vals, new>>)
     ELSE IF Ev.empty # B(Len(new) = 0) \/ Ev.keyless # B(Len(keys) = 0) \/ Ev.count # Len(keys)
          THEN Reject("map-sizes-differ", <<Ev.op, Ev.empty, Ev.keyless, Ev.count>>)
     ELSE IF Ev.has # [j \in 1..(Len(new) + 2) |-> B(j <= Len(new) /\ new[j] # e)] THEN Reject("has-key-differs", <<new, Ev.has>>)
     ELSE IF Ev.keys # keys THEN Reject("keys-differ", <<new, Ev.keys>>)
     ELSE IF Ev.iter # [q \in 1..Len(keys) |-> <<keys[q], new[keys[q]]>>] THEN Reject("iteration-differs", <<new, Ev.iter>>)
     ELSE IF Ev.beyond # "exc" THEN Reject("read-beyond-the-end-not-refused", Ev.op)
     ELSE Go(new)
CompactOp ==
  LET K == Kept(Ev.c)
  IN IF Ev.counts # Compact(Ev.c) THEN Reject("compacted-counts-differ", <<Ev.c, Ev.counts>>)
     ELSE IF Ev.ids # [q \in 1..Len(K) |-> <<K[q], q>>] THEN Reject("compaction-map-differs", <<Ev.c, Ev.ids>>)
     ELSE Go(st)
TraceNext ==
  \/ /\ l <= NLines
     /\ CASE Ev.e = "Begin" -> /\ kind' = Ev.kind /\ l' = l + 1
                               /\ e' = Ev.unset
                               /\ st' = (CASE Ev.kind = "flags" -> [j \in 1..Ev.n |-> Ev.init]
                                           [] Ev.kind = "vmap" -> MapFresh(Ev.n, Ev.unset) [] OTHER -> <<>>)
          [] Ev.e = "Crash" -> Reject("operation-failed", Ev.info)
          [] Ev.e = "Op" -> CASE kind = "ids" -> IdOp [] kind = "flags" -> FlagOp [] kind = "vmap" -> MapOp [] OTHER -> CompactOp
  \/ l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1 /\ UNCHANGED <<kind, st, e>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
