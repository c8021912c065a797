------------------------------- MODULE IdFlags -------------------------------
(* Bookkeeping of the hierarchical engines: split ids, flag vectors, index   *)
(* maps, compaction.  Stated as operators over their abstract states.        *)
EXTENDS Integers, Sequences, FiniteSets
\* ---- split ids: S is the set of ids in use
MayHandOut(S, l, r) == l # r /\ l > 0 /\ r > 0 /\ l \notin S /\ r \notin S
\* ---- flag vector: a sequence of booleans; check-and-set grows it with unset flags
FlagSet(v, i, b) == [v EXCEPT ![i] = b]
FlagCheckSet(v, i, b) ==
  LET n == IF i > Len(v) THEN i ELSE Len(v)
  IN [j \in 1..n |-> IF j = i THEN b ELSE IF j <= Len(v) THEN v[j] ELSE FALSE]
\* ---- index map: a sequence of values, e means unset
MapPut(m, i, x, e) ==
  LET n == IF i > Len(m) THEN i ELSE Len(m)
  IN [j \in 1..n |-> IF j = i THEN x ELSE IF j <= Len(m) THEN m[j] ELSE e]
MapErase(m, i, e) == [m EXCEPT ![i] = e]
MapFresh(n, e) == [j \in 1..n |-> e]
MapKeys(m, e) == SelectSeq([j \in 1..Len(m) |-> j], LAMBDA j : m[j] # e)
\* ---- compaction of counts: the non-empty entries, in order, get 1, 2, ...
Kept(c) == SelectSeq([j \in 1..Len(c) |-> j], LAMBDA j : c[j] > 0)
Compact(c) == [q \in 1..Len(Kept(c)) |-> c[Kept(c)[q]]]
=============================================================================
