---------------------------- MODULE HClustTrace ----------------------------
(* Judges recorded runs of hierarchical k-means, x-means and g-means.        *)
(*  Begin                 the instance                                       *)
(*  Init Pass Decide Split  lab part cnt par fin after the step              *)
(*  End                   the returned clustering                            *)
(* par: live parents [p, l, r, conv, n, c]; c[x][j] is a coordinate times F. *)
EXTENDS HClust, SplitScore, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
VARIABLES l, F, n, lim,
          used      \* live parent -> its children's centres in its last pass
tvars == <<par, lab, part, tree, fin, phase, l, F, n, lim, used>>
Ev == Trace[l]
NextTrace == LET t == Trace[l].tid
                 M == {m \in l..NLines : Trace[m].tid # t}
             IN IF M = {} THEN NLines + 1 ELSE CHOOSE m \in M : \A q \in M : m <= q
TraceInit == /\ par = [P |-> <<>>] /\ lab = <<>> /\ part = <<>> /\ tree = <<>> /\ fin = <<>> /\ phase = "pass"
             /\ l = 1 /\ F = 1 /\ n = 0 /\ lim = 0 /\ used = <<>>
Reject(why, info) == /\ PrintT(<<"REJECT", Ev.tid, l, why, info>>)
                     /\ l' = NextTrace /\ UNCHANGED <<par, lab, part, tree, fin, phase, F, n, lim, used>>

DoBegin == /\ Ev.e = "Begin"
           /\ par' = [P |-> Ev.P, d |-> Ev.d, metric |-> Ev.metric, cap |-> Ev.cap, min |-> Ev.min,
                      tolN |-> Ev.tolN, tolD |-> Ev.tolD, canUndo |-> Ev.canUndo,
                      score |-> Ev.score, strict |-> Ev.strict]
           /\ lab' = [i \in 1..Len(Ev.P) |-> 0] /\ part' = [i \in 1..Len(Ev.P) |-> 0]
           /\ tree' = <<>> /\ fin' = <<>> /\ phase' = "pass" /\ F' = Ev.F /\ n' = 0 /\ lim' = Ev.lim /\ used' = <<>>
           /\ l' = l + 1

FxIs(cs, c) == \A j \in 1..par.d : cs[j] # 999999999 /\ Abs(cs[j] * c.n - F * c.s[j]) <= c.n
\* the parents of an observation
Ids == {Ev.par[x].p : x \in 1..Len(Ev.par)}
ObsOf(p) == Ev.par[CHOOSE x \in 1..Len(Ev.par) : Ev.par[x].p = p]
ParOnce == Cardinality(Ids) = Len(Ev.par)
FinIds == {Ev.fin[x].id : x \in 1..Len(Ev.fin)}
FinOf(c) == Ev.fin[CHOOSE x \in 1..Len(Ev.fin) : Ev.fin[x].id = c].c
Shape == Len(Ev.lab) = Len(par.P) /\ Len(Ev.part) = Len(par.P) /\ ParOnce

\* the observation shows the state: parents with their centres, counts, recorded final centres
ShowsTree(t, f, withConv) ==
  /\ Ids = DOMAIN t
  /\ \A p \in DOMAIN t : LET o == ObsOf(p)
                         IN o.l = t[p].l /\ o.r = t[p].r /\ FxIs(o.c[1], t[p].c[1]) /\ FxIs(o.c[2], t[p].c[2])
                            /\ (withConv => o.conv = t[p].conv)
ShowsCounts(new, ids) ==
  /\ \A x \in 1..Len(Ev.cnt) : Ev.cnt[x][2] = Cardinality({i \in Rows : new[i] = Ev.cnt[x][1]})
  /\ {new[i] : i \in Rows} \subseteq {Ev.cnt[x][1] : x \in 1..Len(Ev.cnt)}
\* retired clusters with rows have their centre recorded; nothing else has
ShowsFin(new, f) ==
  /\ FinIds = {c \in DOMAIN f : \E i \in Rows : new[i] = c}
  /\ \A c \in FinIds : FxIs(FinOf(c), f[c])

IsRowOf(cs, p) == \A j \in 1..par.d : Abs(cs[j] - F * p[j]) <= 1
DoInit ==
  /\ Ev.e = "Init"
  /\ IF ~Shape \/ Ids # {0} THEN Reject("bad-start", Ids)
     ELSE LET o == ObsOf(0)
              CC(x) == IF Ev.given # <<>> THEN {[s |-> Ev.given[x], n |-> 1]}
                       ELSE {[s |-> par.P[i], n |-> 1] : i \in {q \in Rows : IsRowOf(o.c[x], par.P[q])}}
          IN IF \E x \in 1..2 : CC(x) = {} THEN Reject("start-centre-is-no-row", o.c)
             ELSE LET t == (0 :> [l |-> o.l, r |-> o.r, conv |-> FALSE,
                                  c |-> [x \in 1..2 |-> CHOOSE c \in CC(x) : TRUE]])
                  IN IF o.l = o.r \/ 0 \in {o.l, o.r} THEN Reject("start-ids", <<o.l, o.r>>)
                     ELSE IF ~ShowsTree(t, <<>>, FALSE) \/ o.conv THEN Reject("start-centres", o.c)
                     ELSE IF \E i \in Rows : Ev.lab[i] # 0 \/ Ev.part[i] # 0 THEN Reject("start-labels", Ev.lab)
                     ELSE /\ tree' = t /\ l' = l + 1
                          /\ UNCHANGED <<par, lab, part, fin, phase, F, n, lim, used>>

DoPass ==
  /\ Ev.e = "Pass"
  /\ IF ~Shape THEN Reject("bad-shape", Ev.lab)
     ELSE IF phase # "pass" \/ n >= lim THEN Reject("pass-beyond-the-limit", <<phase, n, lim>>)
     ELSE IF n > 0 /\ \A p \in DOMAIN tree : tree[p].conv THEN Reject("pass-after-convergence", n)
     ELSE IF \E i \in Rows : ~Moving(i) /\ Ev.lab[i] # lab[i] THEN Reject("settled-row-moved", <<lab, Ev.lab>>)
     ELSE IF \E i \in Rows : Moving(i) /\ Ev.lab[i] \notin {tree[part[i]].l, tree[part[i]].r}
          THEN Reject("row-left-its-partition", <<part, Ev.lab>>)
     ELSE IF ~PassLabels(Ev.lab) THEN Reject("not-the-nearer-child", <<part, Ev.lab, tree>>)
     ELSE IF Ev.part # part THEN Reject("partition-changed", <<part, Ev.part>>)
     ELSE LET t == PassTree(Ev.lab)
          IN IF ~ShowsTree(t, fin, FALSE) THEN Reject("child-centre-is-no-mean", <<Ev.par, t>>)
             ELSE IF ~ShowsTree(t, fin, TRUE) THEN Reject("converged-early-or-late", <<Ev.par, t>>)
             ELSE IF ~ShowsCounts(Ev.lab, {}) THEN Reject("counts", <<Ev.cnt, Ev.lab>>)
             ELSE IF ~ShowsFin(Ev.lab, fin) THEN Reject("retired-centre-changed", <<Ev.fin, fin>>)
             ELSE /\ Pass(Ev.lab) /\ n' = n + 1 /\ l' = l + 1 /\ UNCHANGED <<F, lim>>
                     /\ used' = TLCEval([p \in DOMAIN tree |-> IF tree[p].conv THEN used[p] ELSE tree[p].c])

\* what the criterion says about the split of p
Verdict(p) ==
  CASE par.score = "bic" -> BicDecision(par.metric, par.d, par.P, In(lab, tree[p].l), In(lab, tree[p].r), used[p], "none")
    [] par.score = "ad"  -> AdDecision(par.d, par.P, In(lab, tree[p].l), In(lab, tree[p].r), par.strict)
    [] OTHER -> "free"
RoundOver == n >= 1 /\ (n = lim \/ \A p \in DOMAIN tree : tree[p].conv)
DoDecide ==
  /\ Ev.e = "Decide"
  /\ LET U == DOMAIN tree \ Ids
     IN IF ~Shape \/ ~(Ids \subseteq DOMAIN tree) THEN Reject("bad-shape", Ids)
        ELSE IF ~RoundOver THEN Reject("round-cut-short", <<n, lim>>)
        ELSE IF \E i \in Rows : part[i] \in U /\ Ev.lab[i] # part[i] THEN Reject("undone-split-keeps-rows", <<U, part, Ev.lab>>)
        ELSE IF \E i \in Rows : part[i] \notin U /\ Ev.lab[i] # lab[i] THEN Reject("row-of-a-kept-split-moved", <<U, lab, Ev.lab>>)
        ELSE IF ~ShowsTree(Only(tree, Ids), fin, FALSE) THEN Reject("kept-split-changed", Ev.par)
        ELSE IF ~ShowsCounts(Ev.lab, {}) THEN Reject("counts", <<Ev.cnt, Ev.lab>>)
        ELSE IF ~ShowsFin(Ev.lab, TLCEval([x \in DOMAIN fin \cup U |-> IF x \in U THEN Mean(part, x) ELSE fin[x]]))
             THEN Reject("undone-split-has-another-mean", <<U, Ev.fin>>)
        ELSE LET V == TLCEval([p \in DOMAIN tree |-> Verdict(p)])
                 Wrong == {p \in DOMAIN tree : V[p] = IF p \in U THEN "keep" ELSE "undo"}
             IN IF Wrong # {}
                THEN LET p == CHOOSE p \in Wrong : TRUE
                     IN Reject(IF p \in U THEN "undid-a-split-to-keep" ELSE "kept-a-split-to-undo",
                               <<In(lab, tree[p].l), In(lab, tree[p].r), used[p]>>)
                ELSE /\ \A p \in DOMAIN tree : par.score = "" \/ PrintT(<<"COUNT", par.score \o " " \o V[p]>>)
                     /\ Undo(U) /\ l' = l + 1 /\ UNCHANGED <<F, n, lim, used>>

\* the parents after a split step: rows of the child as centres
RowsAt(c, cs) == {i \in In(lab, c) : IsRowOf(cs, par.P[i])}
NewTree == TLCEval([p \in Ids |->
  LET o == ObsOf(p)
      C(x) == LET S == RowsAt(p, o.c[x]) IN IF S = {} THEN Zero(par.d) ELSE [s |-> par.P[CHOOSE i \in S : TRUE], n |-> 1]
  IN [l |-> o.l, r |-> o.r, conv |-> o.conv, c |-> <<C(1), C(2)>>]])
DoSplit ==
  /\ Ev.e = "Split"
  /\ IF ~Shape THEN Reject("bad-shape", Ids)
     ELSE IF ~RoundOver \/ (par.canUndo /\ phase # "decided") THEN Reject("round-cut-short", <<n, lim, phase>>)
     ELSE IF Ev.lab # lab \/ Ev.part # lab THEN Reject("split-moved-rows", <<lab, Ev.lab, Ev.part>>)
     ELSE IF \E p \in Ids : \E x \in 1..2 : RowsAt(p, ObsOf(p).c[x]) = {} THEN Reject("split-centre-is-no-row-of-it", Ev.par)
     ELSE LET t == NewTree
          IN IF ~SplitOk(t) THEN Reject("split-not-allowed", <<[p \in DOMAIN t |-> <<t[p].l, t[p].r>>],
                                           [c \in Children(tree) |-> CountOf(c)], DOMAIN fin>>)
             ELSE IF ~ShowsFin(lab, TLCEval([x \in DOMAIN fin \cup (Children(tree) \ DOMAIN t) |->
                                       IF x \in DOMAIN fin THEN fin[x] ELSE CentreOf(x)]))
                  THEN Reject("retired-centre-wrong", <<Ev.fin, fin>>)
             ELSE IF ~ShowsCounts(lab, {}) THEN Reject("counts", <<Ev.cnt, lab>>)
             ELSE Split(t) /\ n' = 0 /\ l' = l + 1 /\ UNCHANGED <<F, lim, used>>

\* ------------------------------------------------------------- the result
M == Len(Ev.cnt)
EndShape == /\ Len(Ev.lab) = Len(par.P) /\ Len(Ev.cs) = M * par.d /\ Ev.k = M /\ Ev.nrow = Len(par.P) /\ Ev.ncol = par.d
            /\ \A i \in Rows : Ev.lab[i] \in 1..M
EndMean(x) == LET c == Mean(Ev.lab, x) IN FxIs([j \in 1..par.d |-> Ev.cs[(x-1) * par.d + j]], c)
\* what every result must be, whatever is known about the run
Result(next) ==
  IF Ev.status # "ok" THEN Reject("run-failed", Ev.status)
  ELSE IF ~EndShape THEN Reject("bad-shape-or-label", <<M, Ev.k, Ev.nrow, Ev.ncol, Len(Ev.cs), Ev.lab>>)
  ELSE IF M < 1 \/ M > Ev.kreq THEN Reject("number-of-clusters", <<M, Ev.kreq>>)
  ELSE IF \E x \in 1..M : Ev.cnt[x] # Cardinality(In(Ev.lab, x)) THEN Reject("counts-are-no-histogram", <<Ev.lab, Ev.cnt>>)
  ELSE IF \E x \in 1..M : Ev.cnt[x] = 0 THEN Reject("empty-cluster", Ev.cnt)
  ELSE IF \E x \in 1..M : ~EndMean(x) THEN Reject("centre-is-no-mean", <<Ev.lab, Ev.cs>>)
  ELSE next
\* position of cluster id among the clusters with rows
Rank(c) == Cardinality({x \in NonEmpty : x <= c})
DoEnd ==
  /\ Ev.e = "End"
  /\ Result(
       IF ~MayEnd THEN Reject("stopped-with-splittable-clusters", Leaves(tree, fin))
       ELSE IF DOMAIN tree # {} /\ ~RoundOver THEN Reject("round-cut-short", <<n, lim>>)
       ELSE IF \E i \in Rows : Ev.lab[i] # Rank(lab[i]) THEN Reject("result-labels", <<lab, Ev.lab>>)
       ELSE End /\ l' = l + 1 /\ UNCHANGED <<F, n, lim, used>>)
\* the result of a run whose steps were not recorded
DoOnly == /\ Ev.e = "Only"
          /\ Result(l' = l + 1 /\ UNCHANGED <<par, lab, part, tree, fin, phase, F, n, lim, used>>)
DoFail == Ev.e = "Fail" /\ Reject("run-failed", Ev.status)

Finish == l = NLines + 1 /\ PrintT(<<"DONE", NLines>>) /\ l' = l + 1
          /\ UNCHANGED <<par, lab, part, tree, fin, phase, F, n, lim, used>>
TraceNext == (l <= NLines /\ (DoBegin \/ DoInit \/ DoPass \/ DoDecide \/ DoSplit \/ DoEnd \/ DoOnly \/ DoFail)) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
