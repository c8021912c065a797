----------------------------- MODULE FileIOTrace -----------------------------
(* Judges recorded operations on the file readers and writers.  Values are   *)
(* strings (hexadecimal images).  Events:                                    *)
(*  Begin                                                                    *)
(*  Raw f v lines rest   the file f now holds v (text: lines); rest: it ends *)
(*                       with an incomplete element                          *)
(*  Open f h kind mode nrow ncol, Close h                                    *)
(*  Write h v; Line h buf v; All h buf v; More h yes; Ncol h c; Seek h p     *)
(*  Rline h buf ok v; Rall h buf v; Nrow h n;  (buf: the buffer beforehand)  *)
(*  Far f start n d v   n rows of d columns from row start on, as a worker   *)
(*                       reads its part of a file; the file may begin with   *)
(*                       base elements nobody looks at                       *)
(*  Bytes f v   f read back;   Store id numel lab d data;   Load f v         *)
(*  Refused     the process ended in this operation                          *)
EXTENDS FileIO, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLES l, files, hs
vars == <<l, files, hs>>
Ev == Trace[l]
NextTrace == LET t == Trace[l].tid
                 S == {m \in l..NLines : Trace[m].tid # t}
             IN IF S = {} THEN NLines + 1 ELSE CHOOSE m \in S : \A q \in S : m <= q
TraceInit == l = 1 /\ files = <<>> /\ hs = <<>>
Reject(why, info) == PrintT(<<"REJECT", Ev.tid, l, why, info>>) /\ l' = NextTrace /\ UNCHANGED <<files, hs>>
Skip == l' = NextTrace /\ UNCHANGED <<files, hs>>
Stay == l' = l + 1 /\ UNCHANGED <<files, hs>>
Put(m, x, y) == [z \in DOMAIN m \cup {x} |-> IF z = x THEN y ELSE m[z]]
SetH(h, x) == hs' = Put(hs, h, x) /\ l' = l + 1 /\ UNCHANGED files
F(h) == files[hs[h].f]
At(h) == h.pos - files[h.f].base      \* position in the part of the file that is looked at

DoBegin == Ev.e = "Begin" /\ files' = [x \in {} |-> 0] /\ hs' = [x \in {} |-> 0] /\ l' = l + 1
DoRaw == Ev.e = "Raw" /\ files' = Put(files, Ev.f, [v |-> Ev.v, lines |-> Ev.lines, base |-> IF "base" \in DOMAIN Ev THEN Ev.base ELSE 0]) /\ l' = l + 1 /\ UNCHANGED hs
DoOpen == /\ Ev.e = "Open"
          /\ hs' = Put(hs, Ev.h, [f |-> Ev.f, kind |-> Ev.kind, pos |-> 0, nrow |-> Ev.nrow, ncol |-> Ev.ncol, seen |-> 0, bad |-> FALSE])
          /\ files' = IF Ev.mode = "wb" THEN Put(files, Ev.f, [v |-> <<>>, lines |-> <<>>, base |-> 0]) ELSE files
          /\ l' = l + 1
DoClose == Ev.e = "Close" /\ Stay
DoWrite == Ev.e = "Write" /\ files' = [files EXCEPT ![hs[Ev.h].f].v = @ \o Ev.v] /\ l' = l + 1 /\ UNCHANGED hs

\* bin_io reads m elements
BinRead(m) ==
  LET h == hs[Ev.h]
  IN IF ~Fits(F(Ev.h).v, At(h), m)
     THEN IF Ev.dead THEN Skip ELSE Reject("read-past-the-end", <<Ev, h>>)
     ELSE IF Ev.dead THEN Reject("refused-a-good-read", <<Ev, h>>)
     ELSE IF Ev.v # Filled(Ev.buf, Slice(F(Ev.h).v, At(h), m)) THEN Reject("values-differ", <<Ev.v, Slice(F(Ev.h).v, At(h), m)>>)
     ELSE SetH(Ev.h, [h EXCEPT !.pos = @ + m])
DoLine == Ev.e = "Line" /\ BinRead(LineLen(hs[Ev.h]))
DoAll == Ev.e = "All" /\ BinRead(AllLen(hs[Ev.h]))
DoMore == /\ Ev.e = "More"
          /\ IF Ev.yes # MoreToRead(hs[Ev.h]) THEN Reject("more-to-read", <<Ev.yes, hs[Ev.h]>>) ELSE Stay
DoNcol == Ev.e = "Ncol" /\ SetH(Ev.h, [hs[Ev.h] EXCEPT !.ncol = Ev.c])
\* what a seek after a failed read does is not promised
DoSeek == Ev.e = "Seek" /\ IF hs[Ev.h].bad THEN Skip ELSE SetH(Ev.h, [hs[Ev.h] EXCEPT !.pos = Ev.p])

\* the stream readers; lines of text or buffers of elements
StreamLine ==
  LET h == hs[Ev.h]  f == F(Ev.h)  m == Len(Ev.buf)
  IN IF h.kind = "rm" /\ h.ncol = 0 THEN (IF Ev.dead THEN Skip ELSE Reject("line-without-columns", Ev))
     ELSE IF Ev.dead THEN Reject("refused-a-good-read", <<Ev, h>>)
     ELSE LET fits == IF h.kind = "rm" THEN Fits(f.v, At(h), m) ELSE h.pos < Len(f.lines)
              new == IF h.kind = "rm" THEN Slice(f.v, At(h), m) ELSE f.lines[h.pos + 1]
          IN IF h.bad \/ ~fits
             THEN IF Ev.ok THEN Reject("line-after-the-end", <<Ev, h>>)
                  ELSE SetH(Ev.h, [h EXCEPT !.bad = TRUE])
             ELSE IF ~Ev.ok THEN Reject("line-not-read", <<Ev, h>>)
             ELSE IF Ev.v # Filled(Ev.buf, new) THEN Reject("values-differ", <<Ev.v, new>>)
             ELSE SetH(Ev.h, [h EXCEPT !.pos = @ + (IF h.kind = "rm" THEN m ELSE 1), !.seen = @ + 1])
DoRline == Ev.e = "Rline" /\ StreamLine
StreamAll ==
  LET h == hs[Ev.h]  f == F(Ev.h)  m == Len(Ev.buf)
      new == IF h.kind = "rm" THEN Slice(f.v, At(h), m) ELSE Flat(SubSeq(f.lines, h.pos + 1, Len(f.lines)))
  IN IF h.bad THEN Skip
     ELSE IF h.kind = "rm" /\ ~Fits(f.v, At(h), m) THEN Skip       \* nothing is promised to this caller
     ELSE IF Ev.dead THEN Reject("refused-a-good-read", <<Ev, h>>)
     ELSE IF Ev.v # Filled(Ev.buf, new) THEN Reject("values-differ", <<Ev.v, new>>)
     ELSE SetH(Ev.h, IF h.kind = "rm" THEN [h EXCEPT !.pos = @ + m]
                     ELSE [h EXCEPT !.seen = @ + (Len(f.lines) - h.pos), !.pos = Len(f.lines)])
DoRall == Ev.e = "Rall" /\ StreamAll
DoNrow == Ev.e = "Nrow" /\ IF Ev.n # hs[Ev.h].seen THEN Reject("rows-counted", <<Ev.n, hs[Ev.h]>>) ELSE Stay

DoBytes == /\ Ev.e = "Bytes"
           /\ IF Ev.f \notin DOMAIN files \/ files[Ev.f].v # Ev.v THEN Reject("file-content", <<Ev, files>>) ELSE Stay
\* one cluster stored: the file named after it holds exactly its rows
DoStore == /\ Ev.e = "Store"
           /\ IF Ev.dead THEN Reject("store-failed", Ev)
              ELSE LET fn == "cluster_" \o ToString(Ev.id) \o "_r" \o ToString(Ev.numel) \o "_c" \o ToString(Ev.d) \o ".bin"
                   IN files' = Put(files, fn, [v |-> RowsOf(Ev.data, Ev.lab, Ev.id, Ev.d), lines |-> <<>>, base |-> 0])
                      /\ l' = l + 1 /\ UNCHANGED hs
\* rows as the threads of an engine read them from the file
DoLoad == /\ Ev.e = "Load"
          /\ IF Ev.dead THEN Reject("load-failed", Ev)
             ELSE IF Ev.v # files[Ev.f].v THEN Reject("thread-values-differ", <<Ev.v, files[Ev.f].v>>) ELSE Stay
DoFar == /\ Ev.e = "Far"
         /\ LET f == files[Ev.f]  p == RowPos(Ev.start, Ev.d) - f.base
            IN IF ~Fits(f.v, p, Ev.n * Ev.d)
               THEN IF Ev.dead THEN Skip ELSE Reject("read-past-the-end", Ev)
               ELSE IF Ev.dead THEN Reject("load-failed", Ev)
               ELSE IF Ev.v # Slice(f.v, p, Ev.n * Ev.d) THEN Reject("thread-values-differ", <<Ev.v, f>>) ELSE Stay
\* a program given this file as its data: it must refuse unless the size is right
DoProg == /\ Ev.e = "Prog"
          /\ LET right == Ev.bytes = Ev.nrow * Ev.ncol * 8
             IN IF right /\ ~Ev.ran THEN Reject("program-refuses-good-data", Ev)
                ELSE IF ~right /\ (Ev.ran \/ Ev.wrote) THEN Reject("program-accepts-wrong-size", Ev)
                ELSE Stay
DoRefused == Ev.e = "Refused" /\ Reject("ended", Ev)
Finish == l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1 /\ UNCHANGED <<files, hs>>
TraceNext == (l <= NLines /\ (DoBegin \/ DoRaw \/ DoOpen \/ DoClose \/ DoWrite \/ DoLine \/ DoAll \/ DoMore \/ DoNcol \/ DoSeek
                              \/ DoRline \/ DoRall \/ DoNrow \/ DoBytes \/ DoStore \/ DoLoad \/ DoFar \/ DoProg \/ DoRefused)) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
