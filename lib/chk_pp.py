"""kmeans++: C10 (repeated starts) and the draw part of C09."""
import core, gen
from kmtrace import fx

PPC = 'CONSTANTS N=1 K=1 R=1 S=1 MET="eucl"'


def model_pp(ctx):
    def one(n, k, r, s, met, **kw):
        ctx.bg(ctx.model, "KMeansPP",
               "SPECIFICATION PPSpec\nINVARIANTS BestIsLeast Distinct Falls\nPROPERTIES NeverWorse\nCHECK_DEADLOCK FALSE\n"
               f'CONSTANTS N={n} K={k} R={r} S={s} MET="{met}"\n',
               f"repeated kmeans++ n={n} k={k} 0..{r}, {s} starts, {met}", workers=3, timeout=3000, **kw)
    one(4, 2, 3, 2, "eucl")
    if ctx.thorough:
        one(4, 3, 3, 2, "eucl")
        one(5, 2, 3, 2, "sqeucl")
        one(4, 2, 3, 3, "taxi")


def pp_job(r, jid, starts, place=None):
    metric = r.choice(["eucl", "eucl", "eucl", "taxi", "sqeucl"])
    d = r.choice([1, 1, 2, 3])
    n = r.randint(2, 18)
    k = r.randint(2, min(6, n))       # the pruning engines need two clusters
    style = r.choice(["wide", "blobs", "tiny", "dups", "line"])
    if r.random() < 0.03:
        d, n, style = r.choice([4, 8, 9, 17]), r.randint(18, 60), r.choice(["tiny", "dups"])
        k = r.choice([7, 8, 9, 12, 17])
    data = gen.points(r, n, d, style)
    return dict(id=str(jid), n=n, d=d, k=k, T=r.choice([1, 2, 3, 4, 7]), maxit=0, init="kmeanspp", dist=metric,
                data=data, scale=gen.scale(r, [1, 1, 4, 10]), place=place or r.choice(["mem", "mem", "file"]), x={"starts": starts})


def split_starts(rec, j):
    w = 1 + j["n"] + j["k"] + j["k"] * j["d"]
    out, ex = [], rec["extra"]
    for i in range(0, len(ex) - w + 1, w):
        out.append((ex[i], [int(v) for v in ex[i + 1:i + 1 + j["n"]]],
                    [int(v) for v in ex[i + 1 + j["n"]:i + 1 + j["n"] + j["k"]]], ex[i + 1 + j["n"] + j["k"]:i + w]))
    return out


def begin(j, W=None, P=None):
    P = P or j["data"]
    return {"e": "Begin", "P": [list(p) for p in P], "k": j["k"], "d": j["d"], "metric": j["dist"],
            "F": 100 if j["dist"] == "eucl" and max(abs(v) for p in P for v in p) < 120 else 10,
            "W": W or [1] * len(P)}


def cs_of(c, j, F):
    s = j.get("scale", 1)
    return [[fx(c[x * j["d"] + q] * s * F) if x * j["d"] + q < len(c) else 999999999 for q in range(j["d"])]
            for x in range(j["k"])]


def pp_items(exe, jobs):
    runs = [dict(j, id=f"{j['id']}.s", engine="kpps") for j in jobs]
    for j in jobs:
        S = j["x"]["starts"]
        j["asks"] = sorted({1, 2, S} | set(range(1, S + 1) if S <= 5 else [3, S // 2, S - 1]))
        runs += [dict(j, id=f"{j['id']}.{s}", engine="kpp", x={"starts": s}) for s in j["asks"] if s <= S]
    res = core.run_jobs(exe, runs)
    items = []
    for j in jobs:
        ev = [begin(j)]
        F = ev[0]["F"]
        es = j.get("scale", 1) ** (2 if j["dist"] == "sqeucl" else 1)
        rs = res[f"{j['id']}.s"]
        lab = lambda a: [v + 1 if 0 <= v < 10 ** 6 else 0 for v in a]
        if rs["status"] != "ok":
            ev.append({"e": "Start", "status": rs["status"]})
        for e, a, c, cen in split_starts(rs, j):
            ev.append({"e": "Start", "status": "ok", "en": fx(e * es * F), "lab": lab(a), "cnt": c, "cs": cs_of(cen, j, F)})
        for s in j["asks"]:
            r = res.get(f"{j['id']}.{s}")
            if r is None:
                continue
            if r["status"] != "ok":
                ev.append({"e": "Result", "status": r["status"], "s": s})
                continue
            ev.append({"e": "Result", "status": "ok", "s": s, "best": int(r["extra"][0]), "en": fx(r["extra"][1] * es * F),
                       "lab": lab(r["assign"]), "cnt": r["counts"], "cs": cs_of(r["cent"], j, F)})
        items.append((j, ev))
    return items


def corrupt_pp(ev, rnd):
    rs = [e for e in ev if e["e"] == "Result" and e.get("status") == "ok"]
    if not rs:
        return None
    e = rnd.choice(rs)
    how = rnd.choice(["en", "cnt", "cs", "best"])
    if how == "en":
        e["en"] += len(ev[0]["P"]) + 7
    elif how == "cnt":
        e["cnt"][0] += 1
    elif how == "cs":
        e["cs"][0][0] += 5
    else:
        e["best"] = 77
    return ev


def c10(ctx):
    model_pp(ctx)
    exe = core.build_exe("kmdrv", ["kmdrv.cpp"])
    jobs = [pp_job(ctx.rnd, i, ctx.rnd.choice([1, 2, 3, 4, 5, 8])) for i in range(ctx.pick(2500, 30000))]
    rerun = lambda j: pp_items(exe, [j])[0][1]
    ctx.traces("KMeansPPTrace", pp_items(exe, jobs), label="repeated starts", consts=PPC, rerun=rerun, canary=corrupt_pp)
    jobs = [pp_job(ctx.rnd, f"L{i}", ctx.pick(30, 100)) for i in range(ctx.pick(60, 600))]
    ctx.traces("KMeansPPTrace", pp_items(exe, jobs), label="many starts", consts=PPC, rerun=rerun)
    draws(ctx, exe)
    return "model_checking", {}


# ---------------------------------------------------------------- draws (C09)
def draw_job(r, jid, starts):
    """Few distinct points, many starts: how often each point follows which points."""
    metric = r.choice(["eucl", "taxi", "sqeucl"])
    d = 1 if metric == "eucl" else r.choice([1, 2])
    m = r.randint(3, 6)
    pts = []
    while len(pts) < m:
        p = [r.choice([0, 1, 2, 3, 5, 8, 12] if metric != "sqeucl" else [0, 1, 2, 4, 5, 6, 7]) for _ in range(d)]
        if p not in pts:
            pts.append(p)
    W = [r.choice([1, 1, 2, 3]) for _ in pts]
    rep = [i for i in range(m) for _ in range(W[i])]
    r.shuffle(rep)
    return dict(id=str(jid), engine="kpps", n=len(rep), d=d, k=r.choice([2, 3]), T=r.choice([1, 2, 3, 5]), maxit=0,
                init="kmeanspp", dist=metric, pts=pts, W=W, data=[pts[i] for i in rep], x={"starts": starts})


def draw_items(exe, jobs):
    res = core.run_jobs(exe, jobs)
    items = []
    for j in jobs:
        rec = res[j["id"]]
        ev = [begin(j, j["W"], j["pts"])]
        if rec["status"] != "ok":
            ev.append({"e": "Start", "status": rec["status"]})
        tab = {}
        for e, a, c, cen in split_starts(rec, j):
            ch = []
            for x in range(j["k"]):
                p = [int(round(v)) for v in cen[x * j["d"]:(x + 1) * j["d"]]]
                if p not in j["pts"]:
                    break
                i = j["pts"].index(p) + 1
                if ch:
                    tab.setdefault(tuple(ch), [0] * len(j["pts"]))[i - 1] += 1
                ch.append(i)
        for ctxt, obs in sorted(tab.items()):
            if sum(obs) >= 60:
                ev.append({"e": "Draw", "ctx": list(ctxt), "obs": obs})
        items.append((j, ev))
    return items


def corrupt_draw(ev, rnd):
    for e in ev:
        if e["e"] == "Draw":
            o = e["obs"]
            hi, lo = o.index(max(o)), o.index(min(o))
            if hi == lo:
                return None
            o[lo] += o[hi]
            o[hi] = 0
            return ev
    return None


def draws(ctx, exe):
    jobs = [draw_job(ctx.rnd, f"d{i}", 4000) for i in range(ctx.pick(24, 200))]
    ctx.traces("KMeansPPTrace", draw_items(exe, jobs), label="drawing frequencies", consts=PPC, canary=corrupt_draw,
               rerun=lambda j: draw_items(exe, [j])[0][1])


# One generator state explains all runs of an engine: the share of the weights up to the row drawn.
def quant_group(r, gid, engine, runs):
    k = r.choice([2, 3, 4])
    n = r.choice([5, 6, 7, 8, 12])
    out = []
    for i in range(runs):
        xs = r.sample(range(0, r.choice([15, 40])), n)
        out.append(dict(id=f"{gid}.{i}", engine=engine, n=n, d=1, k=k, T=r.choice([1, 2, 3, 4, n]), maxit=0,
                        init="kmeanspp", dist="eucl", tol=-1, data=[[x] for x in xs]))
    return dict(id=gid, d=1, k=k, dist="eucl", data=out[0]["data"], runs=out)


def quant_items(exe, groups):
    res = core.run_jobs(exe, [j for g in groups for j in g["runs"]])
    items = []
    for g in groups:
        ev = [begin(g)]
        for j in g["runs"]:
            rec = res[j["id"]]
            if rec["status"] != "ok":
                ev.append({"e": "Start", "status": rec["status"]})
                continue
            idx = {x[0]: i + 1 for i, x in enumerate(j["data"])}
            ch = [idx.get(int(round(v))) if abs(v) < 1e6 else None for v in rec["cent"]]
            if None in ch or len(ch) != j["k"]:
                ev.append({"e": "Start", "status": "centre-is-no-row"})
            else:
                ev.append({"e": "Quant", "Q": j["data"], "ch": ch})
        items.append((g, ev))
    return items


def corrupt_quant(ev, rnd):
    """The same run once with its first and once with its last row drawn."""
    for e in ev:
        if e["e"] == "Quant":
            o = [i for i in range(1, len(e["Q"]) + 1) if i != e["ch"][0]]
            if e["ch"][1] in (o[0], o[-1]):
                continue
            e["ch"] = [e["ch"][0], o[0] if e["ch"][1] > len(e["Q"]) // 2 else o[-1]] + e["ch"][2:]
            if len(set(e["ch"])) < len(e["ch"]):
                return None
            return ev
    return None


def quants(ctx, exe):
    gs = [quant_group(ctx.rnd, f"q{i}", ["full", "prune", "auto", "autop"][i % 4], 30) for i in range(ctx.pick(40, 400))]
    ctx.traces("KMeansPPTrace", quant_items(exe, gs), label="drawing by share", consts=PPC, canary=corrupt_quant,
               rerun=lambda g: quant_items(exe, [g])[0][1])


CHECKS = {"C10": c10}
