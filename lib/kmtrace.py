"""Runs of the exact k-means engines -> traces for KMeansTrace.tla (projection only)."""
import math
import core

SENT = 999999999


def fx(v):
    """Round to an integer TLC can hold; anything else becomes a sentinel no spec value reaches."""
    if v != v or v in (float("inf"), float("-inf")) or abs(v) > 9e8:
        return SENT
    return int(round(v))


def fxb(v, bound):
    return SENT if v != v or abs(v) > bound else fx(v)


def fixed_factor(n, maxabs):
    """Largest factor keeping every sum * factor inside 32 bits."""
    f = 1000
    while f > 1 and n * max(1, maxabs) * f > 5e8:
        f //= 10
    return f


def groups(point_of_row, records):
    """Rows with the same point and the same labels in every record form one group."""
    n = len(point_of_row)
    key = {}
    gid = []
    for r in range(n):
        kx = (point_of_row[r],) + tuple(rec["assign"][r] if r < len(rec["assign"]) else -9 for rec in records)
        if kx not in key:
            key[kx] = len(key)
        gid.append(key[kx])
    W = [0] * len(key)
    rep = [0] * len(key)
    for r, g in enumerate(gid):
        W[g] += 1
        rep[g] = r
    return W, rep


def cents(rec, k, d, scale, F, init=False, bound=9e8):
    out = []
    c = rec["cent"]
    for x in range(k):
        w = 1 if init else (rec["counts"][x] if x < len(rec["counts"]) else 1)
        w = max(1, w)
        out.append([fxb(c[x * d + j] * w * scale * F, bound) if x * d + j < len(c) else SENT for j in range(d)])
    return out


def tol_frac(tol):
    if tol < 0:
        return (0, 1)      # a negative tolerance leaves only the zero-change rule
    num, den = float(tol).as_integer_ratio()
    if den <= 4096 and num <= 4096:
        return (num, den)
    # not dyadic: the driver only uses a/b with small b
    from fractions import Fraction
    f = Fraction(tol).limit_denominator(4096)
    return (f.numerator, f.denominator)


def points_of(job):
    if "rep" in job:
        return [tuple(p) for p in job["pts"]], list(job["rep"])
    pts = [tuple(r) for r in job["data"]]
    return pts, list(range(len(pts)))


def tla_label(a):
    return a + 1 if -1 <= a < 100000 else 100001


def moved_back(job, init_rec, recs, alts):
    """Records in the coordinates of the job, whose rows were all moved by `off` before the run.

    A cluster without rows has the zero vector, which does not move along: nothing is looked at
    after the first pass that left one."""
    k, d, off = job["k"], job["d"], job["off"]

    def bare(rec, x):                        # at the start only the labels of a random partition tell
        return rec["counts"][x] == 0 if rec["iters"] > 0 else x not in rec["assign"]

    def back(rec, init=False):
        if rec is None or rec["status"] != "ok":
            return rec
        c = list(rec["cent"])
        for x in range(min(k, len(c) // d)):
            empty = not (init and job["init"] != "random") and x < len(rec["counts"]) and bare(rec, x)
            for q in range(x * d, x * d + d):
                c[q] -= 0 if empty else off
        return dict(rec, cent=c)
    gone = lambda rec: rec is not None and rec["status"] == "ok" and any(bare(rec, x) for x in range(min(k, len(rec["counts"]))))
    last = 0 if job["init"] == "random" and gone(init_rec) else None
    kept = []
    for lim, rec in recs:
        if last is None or last == 0 and lim == 0:
            kept.append((lim, back(rec)))
            last = lim if gone(rec) else last
    alts = [(name, {lim: back(r, lim == 0) for lim, r in rs.items() if last is None or lim <= last}) for name, rs in alts]
    return back(init_rec, True), kept, alts


def build_trace(job, init_rec, recs, alts=(), ties=False):
    """recs: [(limit, record)] ascending.  alts: [(variant, {limit: record})]."""
    if job.get("off"):
        init_rec, recs, alts = moved_back(job, init_rec, recs, alts)
    pts, rep = points_of(job)
    k, d, n, scale = job["k"], job["d"], job["n"], job.get("scale", 1)
    maxabs = max([1] + [abs(v) for p in pts for v in p] + [abs(v) for p in job.get("centers") or [] for v in p])
    maxabs = job.get("lcm", maxabs)
    F = fixed_factor(n, maxabs)
    allrecs = ([init_rec] if init_rec else []) + [r for _, r in recs] + \
        [r for _, rs in alts for lim, r in rs.items() if lim > 0]
    # equal points share groups
    pid = {}
    por = [pid.setdefault(pts[rep[r]], len(pid)) for r in range(n)]
    W, reprow = groups(por, allrecs)
    G = range(len(W))

    def lab(rec):
        a = rec["assign"]
        return [tla_label(a[reprow[g]]) if reprow[g] < len(a) else 100001 for g in G]
    tn, td = tol_frac(job.get("tol", -1))
    metric = job.get("dist", "eucl")
    rmax = max(maxabs, 1)
    ucap = 1
    while 2 * (d * rmax * ucap) ** 2 * d * ucap ** 2 < 2 ** 31:
        ucap += 1
    ev = [{"e": "Begin", "P": [list(pts[rep[reprow[g]]]) for g in G], "W": W, "k": k, "d": d,
           "metric": metric, "tolN": tn, "tolD": td, "F": F, "R": rmax}]
    if "lcm" in job:
        ev[0]["L"] = job["lcm"]
    kind = {"none": "given"}.get(job["init"], job["init"])

    def init_cs(rec):
        return cents(rec, k, d, scale, F, init=True, bound=2 * F * (maxabs + 1))
    if init_rec is None:
        ev.append({"e": "Init", "kind": "hidden", "lab": [], "cs": [], "given": []})
    else:
        given = [{"s": list(c), "n": 1} for c in job["centers"]] if kind == "given" else []
        ev.append({"e": "Init", "kind": kind, "lab": lab(init_rec), "cs": init_cs(init_rec), "given": given})
        for name, rs in alts:
            if 0 in rs:
                ev.append({"e": "Alt", "variant": name, "lim": 0, "status": rs[0]["status"], "iters": 0,
                           "lab": [], "cnt": [], "cs": init_cs(rs[0])})

    def obs(rec):
        return {"status": rec["status"], "meta": [min(v, SENT) for v in (rec["nrow"], rec["ncol"], rec["k"], len(rec["assign"]), len(rec["cent"]))],
                "iters": min(rec["iters"], SENT), "lab": lab(rec),
                "cnt": [min(max(c, -1), SENT) for c in rec["counts"]], "cs": cents(rec, k, d, scale, F)}
    for lim, rec in recs:
        ev.append(dict({"e": "Run", "lim": lim, "ties": ties, "ucap": ucap}, **obs(rec)))
        for name, rs in alts:
            if lim in rs:
                ev.append(dict({"e": "Alt", "variant": name, "lim": lim}, **obs(rs[lim])))
    return ev


def chains(exe, jobs, maxchain=14, timeout=20, biglimit=60, env=None, run=None, variants=None):
    """For every configuration: one run to the end, then one run per pass limit.

    variants(job) -> list of (name, changed job fields): further runs compared in the same trace.
    Returns list of (job, trace events)."""
    run = run or core.run_jobs
    variants = variants or (lambda j: [])
    first = run(exe, [dict(j, id=f"{j['id']}.L", maxit=biglimit) for j in jobs], timeout=timeout, env=env)
    more = []
    plan = {}
    for j in jobs:
        r = first[f"{j['id']}.L"]
        top = maxchain if r["status"] != "ok" else min(maxchain, max(1, r["iters"]) + 1)
        vs = variants(j)
        # variants are observed at the start, after one pass and at the end
        vl = sorted({0, 1, min(2, top), top})
        plan[j["id"]] = (top, vs, vl)
        for lim in range(0, top + 1):
            more.append(dict(j, id=f"{j['id']}.{lim}", maxit=lim))
        for v, (name, ch) in enumerate(vs):
            for lim in vl:
                more.append(dict(j, id=f"{j['id']}.v{v}.{lim}", maxit=lim, **ch))
    rest = run(exe, more, timeout=timeout, env=env)
    out = []
    for j in jobs:
        top, vs, vl = plan[j["id"]]
        recs = [(lim, rest[f"{j['id']}.{lim}"]) for lim in range(1, top + 1)]
        L = first[f"{j['id']}.L"]
        if L["status"] != "ok" or L["iters"] < top:
            recs.append((biglimit, L))
        i0 = rest[f"{j['id']}.0"]
        if i0["status"] != "ok":
            recs.insert(0, (0, i0))
        alts = [(name, {lim: rest[f"{j['id']}.v{v}.{lim}"] for lim in vl}) for v, (name, _) in enumerate(vs)]
        out.append((j, build_trace(j, i0 if i0["status"] == "ok" else None, recs, alts, ties=bool(vs))))
    return out
