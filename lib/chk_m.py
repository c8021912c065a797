"""C13 k-medoids, C14 scaled k-means, C15 fuzzy c-means, C16 mini-batch k-means."""
import core, gen
from kmtrace import fx, fixed_factor, tol_frac, tla_label, chains

SENT = 999999999


# ------------------------------------------------------------------ C13
def med_job(r, jid):
    dist = r.choice(["taxi", "taxi", "eucl", "eucl", "sqeucl", "cos"])
    if dist == "cos":
        d = r.choice([2, 3])
        n, hi = r.randint(3, 12), (4 if d == 2 else 3)
        lo = r.choice([1, -hi])
        data = []
        while len(data) < n:
            v = [r.randint(lo, hi) for _ in range(d)]
            if any(v):
                data.append(v)
    else:
        n, d = r.choice([r.randint(2, 8), r.randint(5, 20), r.randint(10, 30)]), r.choice([1, 1, 2, 3])
        style, top = r.choice(gen.STYLES), 6
        if r.random() < 0.04:
            n, d, style, top = r.randint(12, 50), r.choice([3, 5, 8, 9, 16, 17]), r.choice(["tiny", "dups"]), 20
        data = gen.points(r, n, d, style)
    return dict(id=str(jid), engine="med", n=n, d=d, k=r.randint(1, min(top if dist != "cos" else 6, n)), T=r.choice([1, 2, 3, 4, 5, n, n + 2]),
                init="forgy", tol=r.choice([-1, -1, -1, 0.0, 0.1, 0.25]), dist=dist, data=data, scale=gen.scale(r, [1, 1, 4, 10]),
                place=r.choice(["mem", "mem", "file"]), x={"rate": r.choice([1.0, 1.0, 0.2, 0.5, 0.8, 2.0])})


def chain_items(exe, jobs, begin, run, top=9, biglimit=60, env=None):
    """One run per pass limit 0..top and one with a large limit."""
    lims = list(range(top + 1)) + [biglimit]
    res = core.run_jobs(exe, [dict(j, id=f"{j['id']}.{m}", maxit=m) for j in jobs for m in lims], timeout=30, env=env)
    out = []
    for j in jobs:
        ev = [begin(j)]
        end = False
        for m in lims:
            r = res[f"{j['id']}.{m}"]
            if m > top and not end and r["status"] == "ok" and r["iters"] > top:
                continue                     # longer than the recorded chain
            ev.append(run(j, ev[0], m, r))
            end = end or (r["status"] == "ok" and r["iters"] < m)
        out.append((j, ev))
    return out


def plain_run(j, b, m, r):
    if r["status"] != "ok":
        return {"e": "Run", "lim": m, "status": r["status"]}
    sc = j.get("scale", 1)
    return {"e": "Run", "lim": m, "status": "ok", "iters": min(r["iters"], SENT), "k": min(r["k"], SENT),
            "nrow": min(r["nrow"], SENT), "ncol": min(r["ncol"], SENT), "lab": [tla_label(a) for a in r["assign"]],
            "cnt": [min(max(c, -1), SENT) for c in r["counts"]], "cs": [fx(v * sc * b["F"]) for v in r["cent"]]}


def med_begin(j):
    maxabs = max([1] + [abs(v) for p in j["data"] for v in p])
    tn, td = tol_frac(j["tol"])
    return {"e": "Begin", "P": j["data"], "k": j["k"], "metric": j["dist"], "full": j["x"]["rate"] >= 1, "tolN": tn, "tolD": td,
            "F": fixed_factor(1, maxabs)}


def model_med(ctx):
    def one(n, r, k, full, tol=(0, 1), bug="none", expect=None, metrics='{"taxi", "sqeucl", "eucl"}', props="Never StepAllowed Ends", **kw):
        ctx.bg(ctx.model, "MCMedoids",
               f"SPECIFICATION MCSpec\nINVARIANTS Placed LocalOptimum\nPROPERTIES {props}\nCHECK_DEADLOCK FALSE\n"
               f'CONSTANTS N={n} R={r} K={k} Metrics={metrics} Full={full} TolN={tol[0]} TolD={tol[1]} Bug="{bug}"\n',
               f"k-medoids n={n} k={k} 0..{r} full={full} variant {bug}", expect=expect, workers=3, timeout=3000, **kw)
    one(4, 3, 2, "TRUE")
    one(4, 3, 2, "FALSE", tol=(1, 4))
    one(3, 2, 2, "FALSE", bug="worse", expect="is violated")
    one(4, 3, 2, "FALSE", bug="stale", expect="is violated")
    if ctx.thorough:
        one(5, 5, 2, "TRUE")
        one(5, 3, 3, "TRUE")
        one(5, 3, 3, "FALSE")
        one(6, 3, 2, "FALSE")


def corrupt_run(ev, rnd):
    rs = [e for e in ev if e["e"] == "Run" and e["status"] == "ok"]
    if not rs:
        return None
    e = rnd.choice(rs)
    how = rnd.choice(["cnt", "cs", "it"])
    if how == "cnt":
        e["cnt"][0] += 1
    elif how == "cs":
        e["cs"][0] += 10 ** 7
    else:
        e["iters"] += 1
    return ev


def c13(ctx):
    model_med(ctx)
    exe = core.build_exe("kmdrv", ["kmdrv.cpp"])
    jobs = [med_job(ctx.rnd, i) for i in range(ctx.pick(1000, 20000))]
    mk = lambda js: chain_items(exe, js, med_begin, plain_run)
    ctx.traces("MedoidsTrace", mk(jobs), label="k-medoids", canary=corrupt_run, rerun=lambda j: mk([j])[0][1])
    return "model_checking", {}


# ------------------------------------------------------------------ C14
def skm_job(r, jid):
    n, d = r.choice([r.randint(2, 8), r.randint(5, 25), r.randint(10, 50)]), r.choice([1, 2, 2, 3])
    L = r.choice([6, 12, 12, 24, 30])
    wide = r.random() < 0.04
    if wide:
        n, d, L = r.randint(20, 90), r.choice([2, 5, 8, 9, 16, 17]), r.choice([2, 4, 6])
    divs = [v for v in range(1, L + 1) if L % v == 0]
    cols = []
    for _ in range(d):
        w = r.choice(divs + [L, L, L])
        if r.random() < 0.05:
            w = 0
        base = r.choice([0, 0, 1, -w, -w - 1, -w // 2, -60, 40, -200, 100])
        shape = r.choice(["uniform", "ends", "skew"])
        v = [r.randint(0, w) if shape == "uniform" else r.choice([0, w]) if shape == "ends" else min(r.randint(0, w), r.randint(0, w))
             for _ in range(n)]
        v[r.randrange(n)] = 0            # the extremes lie with any thread
        v[r.choice([i for i in range(n) if v[i] != 0 or v.count(0) > 1] or [0])] = w
        cols.append([base + x for x in v])
    data = [[cols[j][i] for j in range(d)] for i in range(n)]
    lcm = 1
    from math import gcd
    for c in cols:
        w = max(c) - min(c)
        if w:
            lcm = lcm * w // gcd(lcm, w)
    k = r.randint(2, min(20 if wide else 6, n))
    j = dict(id=str(jid), engine="skm", n=n, d=d, k=k, T=r.choice([1, 2, 3, 4, 5, 7, n, n + 2]),
             init=r.choice(["none", "forgy", "forgy", "random", "kmeanspp"]), tol=r.choice([-1, -1, 0.0, 0.1, 0.25, 0.5]),
             dist=r.choice(["eucl", "eucl", "eucl", "taxi", "sqeucl"]), data=data, inscale=gen.scale(r, [1, 1, 4, 10, 1000, 0.125]),
             scale=lcm, lcm=lcm, place=r.choice(["mem", "mem", "file"]))
    if j["init"] == "none":
        j["centers"] = [[r.randint(0, lcm) for _ in range(d)] for _ in range(k)]
    return j


def model_minmax(ctx):
    def one(n, t, lo, hi, bug="none", expect=None):
        ctx.bg(ctx.model, "MCMinMax", "SPECIFICATION Spec\nINVARIANT Right\n" + ("PROPERTY Ends\n" if not expect else "") +
               f'CHECK_DEADLOCK FALSE\nCONSTANTS N={n} T={t} Below={-lo} Hi={hi} Bug="{bug}"\n',
               f"parallel scaling n={n} threads={t} {lo}..{hi} variant {bug}", expect=expect, workers=3, timeout=3000)
    one(3, 2, -2, 1)
    for bug in ("zero", "own", "early"):
        one(3, 2, -2, 1, bug, "is violated")
    if ctx.thorough:
        one(4, 3, -2, 2)


def c14(ctx):
    model_minmax(ctx)
    exe = core.build_exe("kmdrv", ["kmdrv.cpp"])
    jobs = [skm_job(ctx.rnd, i) for i in range(ctx.pick(2500, 30000))]
    mk = lambda js: chains(exe, js, variants=lambda j: [(f"T={t}", {"T": t}) for t in ([1] if j["T"] > 1 else [3])])
    ctx.traces("KMeansTrace", mk(jobs), label="scaled k-means", canary=corrupt_km, rerun=lambda j: mk([j])[0][1])
    return "model_checking", {}


# ------------------------------------------------------------------ C15
ROOTS = {("sqeucl", 2): 1, ("sqeucl", 3): 2, ("sqeucl", 5): 4, ("eucl", 2): 2, ("eucl", 3): 4, ("taxi", 2): 1, ("taxi", 3): 2,
         ("taxi", 5): 4}


def fcm_job(r, jid):
    n, d = r.choice([r.randint(2, 6), r.randint(4, 12), r.randint(8, 12)]), r.choice([1, 2, 2, 3])
    R = r.choice([2, 5, 10])
    wide = r.random() < 0.03
    if wide:
        n, d, R = r.randint(8, 20), r.choice([4, 5, 8, 9]), 2
    how = r.choice(["any", "two", "dups"])
    if how == "any":
        data = [[r.randint(0, R) for _ in range(d)] for _ in range(n)]
    elif how == "two":
        data = [[min(R, max(0, r.choice([0, R]) + r.randint(-1, 1))) for _ in range(d)] for _ in range(n)]
    else:
        base = [[r.randint(0, R) for _ in range(d)] for _ in range(max(1, n // 2))]
        data = [list(r.choice(base)) for _ in range(n)]
    off = r.choice([0, 0, R // 2, R])
    data = [[v - off for v in p] for p in data]
    k = r.randint(1, min(9 if wide else 5, n))
    j = dict(id=str(jid), engine="fcm", n=n, d=d, k=k, T=r.choice([1, 2, 2, 3, 4, 5, n, n + 2]), init=r.choice(["forgy", "none", "none"]),
             tol=r.choice([-1, -1, 0.01, 0.1, 0.5]), dist=r.choice(["sqeucl", "sqeucl", "sqeucl", "eucl", "taxi"]), data=data,
             scale=gen.scale(r, [1, 1, 4, 10]), place=r.choice(["mem", "mem", "file"]), x={"fuzz": r.choice([2, 2, 2, 3, 3, 4, 5])})
    if not 0.01 < j["scale"] < 100:          # the tolerance is a distance
        j["tol"] = -1
    if j["init"] == "none":
        j["centers"] = [[r.randint(0, R) - off for _ in range(d)] for _ in range(k)]
    return j


def fcm_begin(j):
    F = 1000
    return {"e": "Begin", "P": j["data"], "d": j["d"], "k": j["k"], "m": j["x"]["fuzz"], "metric": j["dist"],
            "root": ROOTS.get((j["dist"], j["x"]["fuzz"]), 0), "F": F, "given": j.get("centers") or [],
            "tolF": int(j["tol"] * j["scale"] * F) if j["tol"] > 0 else 0}


def fcm_run(j, b, m, r, kind="Run"):
    e = plain_run(j, b, m, r)
    e["e"] = kind
    if e["status"] == "ok":
        cs, d = e["cs"], j["d"]
        cap = 40 * b["F"]
        e["cs"] = [[v if abs(v) <= cap else SENT for v in cs[x:x + d]] for x in range(0, len(cs), d)]
    return e


def fcm_items(exe, jobs, top=6):
    return with_variants(exe, jobs, fcm_begin, fcm_variants, top, 100)


def with_variants(exe, jobs, begin, variants, top, biglimit):
    base = chain_items(exe, jobs, begin, fcm_run, top=top, biglimit=biglimit)
    alts = []
    for j in jobs:
        for v, ch in enumerate(variants(j)):
            for m in (1, 3):
                alts.append((j["id"], m, ch, dict(j, id=f"{j['id']}.a{v}.{m}", maxit=m, **ch)))
    res = core.run_jobs(exe, [a[3] for a in alts], timeout=30)
    by = {}
    for jid, m, ch, aj in alts:
        by.setdefault((jid, m), []).append((ch, res[aj["id"]]))
    out = []
    for j, ev in base:
        new = []
        for e in ev:
            new.append(e)
            if e["e"] == "Run":
                for ch, r in by.get((j["id"], e["lim"]), []):
                    new.append(dict(fcm_run(j, ev[0], e["lim"], r, "Alt"), variant=str(ch)))
        out.append((j, new))
    return out


def fcm_variants(j):
    return [{"T": 1} if j["T"] > 1 else {"T": 3}, {"T": 4, "place": "mem" if j["place"] == "file" else "file"}]


def model_fcm(ctx):
    def one(k, d, err, bug="none", expect=None, inv="Encloses Largest NearestIsLargest Ordered SumOne"):
        ctx.bg(ctx.model, "MCFcm", f"SPECIFICATION Spec\nINVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n"
               f'CONSTANTS K={k} D={d} Err={err} Bug="{bug}"\n',
               f"memberships k={k} distances 0..{d} error {err} variant {bug}", expect=expect, workers=3, timeout=3000)
    one(3, 6, 3)
    one(2, 30, 2)
    one(2, 4, 0, "epsmember", "is violated")
    if ctx.thorough:
        one(4, 5, 2)
        one(3, 15, 3)


def corrupt_fcm(ev, rnd):
    rs = [e for e in ev if e["e"] == "Run" and e["lim"] == 1]
    if not rs:
        return None
    how = rnd.choice(["cnt", "cs"])
    if how == "cnt":
        rs[0]["cnt"][0] += 1
    else:
        rs[0]["cs"][0][0] += 20000
        if ev[0]["root"] == 0:
            rs[0]["cnt"][0] -= 1
    return ev


def c15(ctx):
    model_fcm(ctx)
    exe = core.build_exe("kmdrv", ["kmdrv.cpp"])
    jobs = [fcm_job(ctx.rnd, i) for i in range(ctx.pick(1000, 15000))]
    mk = lambda js: fcm_items(exe, js)
    ctx.traces("FcmTrace", mk(jobs), label="fuzzy c-means", canary=corrupt_fcm, rerun=lambda j: mk([j])[0][1])
    return "model_checking", {}


# ------------------------------------------------------------------ C16
def mb_job(r, jid):
    R = r.choice([4, 10, 20])
    every = r.random() < 0.35
    n = r.choice([r.randint(3, 12), r.randint(8, 40)]) if every else r.randint(2, 6)
    d = r.choice([1, 1, 2])
    k = r.randint(2, min(4, n))
    if every and r.random() < 0.1:
        n, d, R = r.randint(20, 70), r.choice([3, 5, 8, 9, 17]), 4
        k = r.randint(2, 17)
    off = r.choice([0, 0, R // 2, R])
    data = [[r.randint(0, R) - off for _ in range(d)] for _ in range(n)]
    init = r.choice(["forgy", "none", "none", "kmeanspp", "random"])
    T = r.choice([1, 1, 2, 3, n, n + 2])
    j = dict(id=str(jid), engine="mb", n=n, d=d, k=k, T=T, init=init, tol=r.choice([-1, -1, -1, 0.05, 0.3]),
             dist=r.choice(["eucl", "eucl", "sqeucl", "taxi"]), data=data, scale=gen.scale(r, [1, 1, 4, 10]),
             place=r.choice(["mem", "mem", "file"]), x={"mb": r.choice([n, n + 3, 2 * n]) if every else r.randint(1, n)})
    if not 0.01 < j["scale"] < 100:
        j["tol"] = -1
    if init == "none":
        j["centers"] = [[r.randint(0, R) - off for _ in range(d)] for _ in range(k)]
    return j


def mb_big(r, jid):
    """More than one task per thread."""
    n = r.choice([8193, 8194, 9001, 16385, 17000])
    data = [[r.randint(0, 20)] for _ in range(n)]
    return dict(id=str(jid), engine="mb", n=n, d=1, k=3, T=r.choice([1, 1, 2]), init="none", tol=-1, dist="taxi", data=data, scale=1,
                place="mem", centers=[[0], [r.choice([5, 7, 9])], [20]], x={"mb": n + 1})


def mb_every(j):
    return j["x"]["mb"] >= j["n"] and j["x"]["mb"] >= j["T"]


def mb_begin(j):
    F = 1000 if j["n"] < 1000 else 100000          # the larger needs taxicab distances to stay inside 32 bits
    return {"e": "Begin", "P": j["data"], "d": j["d"], "k": j["k"], "metric": j["dist"], "init": j["init"], "F": F,
            "given": j.get("centers") or [], "all": mb_every(j),
            "tolF": int(j["tol"] * j["scale"] * F) if j["tol"] > 0 else 0}


def mb_items(exe, jobs, top=7):
    def variants(j):
        v = [{"place": "mem" if j["place"] == "file" else "file"}]
        if mb_every(j):
            v.append({"T": 3 if j["T"] == 1 else 1})
        return v
    return with_variants(exe, jobs, mb_begin, variants, top, 60)


def model_mb(ctx):
    def one(n, r, k, b, bug="none", expect=None):
        ctx.bg(ctx.model, "MCMiniBatch", "SPECIFICATION MCSpec\nINVARIANTS InHull OnlySampledMove FinalNearest Narrow\nPROPERTY Finishes\n"
               f'CHECK_DEADLOCK FALSE\nCONSTANTS N={n} R={r} K={k} U=1000 Batches={b} Bug="{bug}"\n',
               f"mini-batch n={n} k={k} 0..{r} {b} batches variant {bug}", expect=expect, workers=3, timeout=3000)
    one(3, 2, 2, 2)
    one(3, 2, 2, 2, "noreset", "FinalNearest is violated")
    one(3, 2, 2, 2, "nofinal", "FinalNearest is violated")
    one(3, 2, 2, 2, "rate", "InHull is violated")
    if ctx.thorough:
        one(3, 3, 2, 3)
        one(4, 2, 2, 2)
        one(3, 2, 3, 2)


def corrupt_mb(ev, rnd):
    rs = [e for e in ev if e["e"] == "Run" and e["lim"] > 0]
    if not rs:
        return None
    how = rnd.choice(["cnt", "cs"])
    if how == "cnt":
        rs[0]["cnt"][0] += 1
    else:
        rs[0]["cs"][0][0] += 39000
    return ev


def c16(ctx):
    model_mb(ctx)
    exe = core.build_exe("kmdrv", ["kmdrv.cpp"])
    jobs = [mb_job(ctx.rnd, i) for i in range(ctx.pick(1000, 15000))]
    mk = lambda js: mb_items(exe, js, 7)
    mkbig = lambda js: mb_items(exe, js, 2)
    big = [mb_big(ctx.rnd, f"b{i}") for i in range(ctx.pick(4, 30))]
    ctx.traces("MiniBatchTrace", mkbig(big), label="mini-batch k-means, many tasks", canary=corrupt_mb, rerun=lambda j: mkbig([j])[0][1])
    ctx.traces("MiniBatchTrace", mk(jobs), label="mini-batch k-means", canary=corrupt_mb, rerun=lambda j: mk([j])[0][1])
    return "model_checking", {}


def corrupt_km(ev, rnd):
    import checks
    return checks.corrupt_km(ev, rnd)


CHECKS = {"C13": c13, "C14": c14, "C15": c15, "C16": c16}
