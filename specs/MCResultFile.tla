---------------------------- MODULE MCResultFile -----------------------------
(* The writer as a machine that emits one token per step from the flat        *)
(* buffers of the result object; checked against the format and the reader.  *)
EXTENDS ResultFile, TLC
CONSTANTS K, N, D, V, Bug
ASSUME Bug \in {"none", "bycol", "short", "kk"}
VARIABLES r, buf, part, i, j, out
vars == <<r, buf, part, i, j, out>>
Mod(a, b) == a - b * (a \div b)
Results == UNION {[k : {k}, iters : {7}, nrow : {n}, ncol : {d}, size : [1..k -> {1, 2}], lab : [1..n -> 0..(k - 1)], cen : [1..k -> [1..d -> V]]]
                  : k \in 1..K, n \in 1..N, d \in 1..D}
Flat(x) == [p \in 1..(x.k * x.ncol) |-> x.cen[(p - 1) \div x.ncol + 1][Mod(p - 1, x.ncol) + 1]]
Init == r \in Results /\ buf = Flat(r) /\ part = "head" /\ i = 0 /\ j = 0 /\ out = <<>>
Emit(s) == out' = out \o s
Go(p) == part' = p /\ i' = 0 /\ j' = 0 /\ UNCHANGED <<r, buf>>
Sep == IF i = 0 THEN <<>> ELSE <<Sym(",")>>
Start == part = "head" /\ Go("size") /\ Emit(<<Sym("k:"), Int(r.k), Sym("niter:"), Int(r.iters), Sym("nsamples:"), Int(r.nrow),
                                              Sym("dim:"), Int(r.ncol), Sym("size:"), Sym("[")>>)
Size == /\ part = "size"
        /\ IF i < r.k THEN Emit(Sep \o <<Int(r.size[i + 1])>>) /\ i' = i + 1 /\ UNCHANGED <<r, buf, part, j>>
           ELSE Go("label") /\ Emit(<<Sym("]"), Sym("cluster:"), Sym("[")>>)
NL == IF Bug = "kk" THEN IF r.k < r.nrow THEN r.k ELSE r.nrow ELSE r.nrow
Label == /\ part = "label"
         /\ IF i < NL THEN Emit(Sep \o <<Int(r.lab[i + 1])>>) /\ i' = i + 1 /\ UNCHANGED <<r, buf, part, j>>
            ELSE Go("centre") /\ Emit(<<Sym("]"), Sym("centroids:"), Sym("[")>>)
At(row, col) == IF Bug = "bycol" THEN buf[Mod(row + col * r.k, Len(buf)) + 1] ELSE buf[row * r.ncol + col + 1]
NC == IF Bug = "short" /\ r.k > 1 THEN r.ncol - 1 ELSE r.ncol
Centre == /\ part = "centre"
          /\ IF i = r.k THEN Go("done") /\ Emit(<<Sym("]")>>)
             ELSE IF j = NC THEN Emit(<<Sym("]")>>) /\ i' = i + 1 /\ j' = 0 /\ UNCHANGED <<r, buf, part>>
             ELSE /\ Emit((IF j = 0 THEN Sep \o <<Sym("[")>> ELSE <<Sym(",")>>) \o <<Val(At(i, j))>>)
                  /\ j' = j + 1 /\ UNCHANGED <<r, buf, part, i>>
Next == Start \/ Size \/ Label \/ Centre
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
WritesFormat == part = "done" => out = Format(r)
ReadsBack == part = "done" => Parse(out) = r
IsPrefix == LET f == Format(r) IN Len(out) <= Len(f) /\ \A p \in 1..Len(out) : out[p] = f[p]
Ends == <>(part = "done")
=============================================================================
