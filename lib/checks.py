"""The checks: which models, which runs of the real code, which trace specification."""
import json
import core, gen, kmtrace
import chk_conc, chk_obj, chk_pp, chk_h, chk_m, chk_d, chk_io
from kmtrace import chains

EXACT = ["full", "prune", "auto", "autop"]


def kmdrv():
    return core.build_exe("kmdrv", ["kmdrv.cpp"])


def corrupt_km(ev, rnd):
    """Make one recorded field of an accepted k-means trace wrong."""
    runs = [e for e in ev if e["e"] == "Run"]
    if not runs or ev[0]["metric"] == "cos" or max(ev[0]["W"]) > 20:
        return None
    e = runs[0]
    how = rnd.choice(["count", "centre", "iters", "label"])
    if how == "count":
        e["cnt"][rnd.randrange(len(e["cnt"]))] += 1
    elif how == "centre":
        e["cs"][0][0] += 3
    elif how == "iters":
        e["iters"] += 1
    else:
        e["lab"][rnd.randrange(len(e["lab"]))] = 77
    return ev


def model_kmeans(ctx):
    """Exhaustive check of the Lloyd specification on all small instances."""
    props = "INVARIANTS TypeOK CountsSum FixPoint StopOnlyByRule\nPROPERTIES EnergyDown Ends\nCHECK_DEADLOCK FALSE\n"
    r = ctx.pick(2, 3)
    ctx.bg(ctx.model, "MCKMeans",
           f"SPECIFICATION MCSpec\n{props}CONSTANTS N=4 K=2 R={r} Limit=5 MET=\"eucl\"\n Tols<-TolsC\n",
           f"Lloyd, all 1-D instances n=4 k=2 coordinates 0..{r}, 3 tolerances, limit 5", timeout=3000)


def model_pruned(ctx):
    """The pruning rules as implemented refine Lloyd; wrong variants do not."""
    def one(n, k, r, bug, expect=None):
        ctx.bg(ctx.model, "PrunedKMeans",
               f"SPECIFICATION Spec\nINVARIANTS Lloyd TrueMeans BoundSound\nCHECK_DEADLOCK FALSE\n"
               f"CONSTANTS N={n} K={k} R={r} Limit=6 Bug=\"{bug}\"\n",
               f"pruned k-means (1-D) n={n} k={k} 0..{r} variant {bug}", expect=expect, workers=3, timeout=3000)
    one(4, 2, 4, "none")
    one(4, 3, 2, "none")
    one(4, 2, 4, "firstdrift", "is violated")
    one(4, 2, 4, "nothalved", "is violated")
    if ctx.thorough:
        one(4, 3, 4, "none")
        one(4, 2, 7, "none")
        one(3, 3, 6, "none")
        for bug in ("nodrift", "boundlost", "noremove", "firstdrift", "nothalved"):
            one(4, 3, 4, bug, "is violated")


def km_traces(ctx, exe, jobs, label, variants=None, maxchain=14, timeout=20, run=None):
    items = chains(exe, jobs, variants=variants, maxchain=maxchain, timeout=timeout, run=run)
    ctx.traces("KMeansTrace", items, label=label, canary=corrupt_km,
               rerun=lambda j: chains(exe, [j], variants=variants, maxchain=maxchain, timeout=timeout, run=run)[0][1])


def tlc_instances(ctx):
    """All instances of a small scope, enumerated by TLC from the specification's initial states."""
    r = core.tlc("GenKMeans", "INIT GenInit\nNEXT GenNext\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n"
                 "CONSTANTS N=4 K=2 R=2 Limit=1 MET=\"eucl\"\n Tols<-Tols1\n", workers=1)
    core.tlc_ok(r, "GenKMeans")
    out = []
    for line in r["out"].splitlines():
        if line.startswith('"I ') or line.startswith("I "):
            out.append(json.loads(line.strip('"')[2:].replace('\\"', '"')))
    ctx.states += r["distinct"]
    ctx.transitions += r["generated"]
    return out


def small_scope_jobs(ctx, engines, inst, frac):
    jobs = []
    for i, it in enumerate(inst):
        for e in engines:
            if ctx.rnd.random() < frac:
                P = it["P"]
                jobs.append(dict(id=f"s{i}.{e}", engine=e, n=len(P), d=1, k=len(it["C"]), T=ctx.rnd.choice([1, 2, 3]),
                                 init="none", tol=-1, data=P, centers=it["C"]))
    return jobs


# ------------------------------------------------------------------ C01 / C02
def c01(ctx):
    model_kmeans(ctx)
    exe = kmdrv()
    inst = tlc_instances(ctx)
    km_traces(ctx, exe, small_scope_jobs(ctx, ["full", "auto"], inst, ctx.pick(0.6, 1)), "TLC-enumerated instances")
    n = ctx.pick(3000, 60000)
    jobs = [gen.exact_job(ctx.rnd, i, ["full", "auto"][i % 2]) for i in range(n)]
    km_traces(ctx, exe, jobs, "generated instances")
    jobs = [gen.big_job(ctx.rnd, f"b{i}", ["full", "auto"][i % 2]) for i in range(ctx.pick(12, 120))]
    km_traces(ctx, exe, jobs, "large row counts")
    wide_traces(ctx, exe, ["full", "auto"])
    return "model_checking", {"instances_enumerated": len(inst)}


def wide_traces(ctx, exe, engines, num=60, **kw):
    jobs = [gen.wide_job(ctx.rnd, f"w{i}", engines[i % len(engines)]) for i in range(ctx.pick(num, 25 * num))]
    km_traces(ctx, exe, jobs, "many features, centres or rows", maxchain=7, **kw)


def c02(ctx):
    model_kmeans(ctx)
    model_pruned(ctx)
    exe = kmdrv()
    inst = tlc_instances(ctx)
    km_traces(ctx, exe, small_scope_jobs(ctx, ["prune", "autop"], inst, ctx.pick(0.6, 1)), "TLC-enumerated instances")
    n = ctx.pick(6000, 120000)
    jobs = [gen.exact_job(ctx.rnd, i, ["prune", "autop"][i % 2],
                          style=ctx.rnd.choice(["wide", "line", "line", "blobs", "tiny", "dups"])) for i in range(n)]
    km_traces(ctx, exe, jobs, "generated instances", maxchain=20)
    jobs = [gen.big_job(ctx.rnd, f"b{i}", ["prune", "autop"][i % 2]) for i in range(ctx.pick(14, 140))]
    km_traces(ctx, exe, jobs, "large row counts")
    wide_traces(ctx, exe, ["prune", "autop"])
    return "model_checking", {"instances_enumerated": len(inst)}


# ------------------------------------------------------------------ C03
def placements(ctx):
    """Variants of a configuration that must not matter."""
    def variants(j):
        r = __import__("random").Random(j["id"])
        n = j["n"]
        out = []
        for T in r.sample([1, 2, 3, 4, 5, 6, 7, 8, 11, 16, n, n + 3], 3):
            if T > 40:
                T = 13
            out.append((f"{j['engine']} T={T}", {"T": T}))
        out.append(("file", {"place": "file", "T": r.choice([1, 2, 3, 5])}) if j["engine"] in ("full", "prune")
                   else ("other", {"engine": "full", "T": 2}))
        if j["engine"] in ("full", "prune"):
            out.append(("numa", {"place": "numa", "T": r.choice([1, 2, 3, 5])}))
            nn = r.choice([2, 3, 4])
            out.append((f"{nn} nodes", {"nn": nn, "place": r.choice(["mem", "file", "numa"]), "T": r.choice([1, 2, 3, 4, 5, 7])}))
        if j.get("dist", "eucl") == "eucl":
            out.append(("pruned", {"engine": "prune", "T": r.choice([1, 2, 4])}))
            out.append(("openmp pruned", {"engine": "autop", "T": r.choice([1, 2, 4])}))
        out.append(("openmp", {"engine": "auto", "T": r.choice([1, 2, 4])}))
        out.append(("threads", {"engine": "full", "T": r.choice([1, 2, 4])}))
        return out
    return variants


def c03(ctx):
    model_kmeans(ctx)
    exe = kmdrv()
    jobs = []
    for i in range(ctx.pick(700, 12000)):
        jobs.append(gen.exact_job(ctx.rnd, i, EXACT[i % 4], style=ctx.rnd.choice(["wide", "wide", "blobs", "line"]),
                                  init=ctx.rnd.choice(["none", "none", "forgy", "random", "kmeanspp"])))
    km_traces(ctx, exe, jobs, "placement variants", variants=placements(ctx))
    wide_traces(ctx, exe, EXACT, 32, variants=placements(ctx))
    jobs = [gen.big_job(ctx.rnd, f"b{i}", EXACT[i % 4]) for i in range(ctx.pick(8, 80))]
    km_traces(ctx, exe, jobs, "large row counts", variants=placements(ctx), maxchain=6)
    return "model_checking", {}


# ------------------------------------------------------------------ C05 / C06
def c05(ctx):
    model_kmeans(ctx)
    exe = kmdrv()
    jobs = [gen.exact_job(ctx.rnd, i, EXACT[i % 4], style=ctx.rnd.choice(["tiny", "dups", "tiny", "wide"]))
            for i in range(ctx.pick(4000, 60000))]
    for j in jobs:
        if j["engine"].startswith("auto"):
            j["x"] = {"buf": 1}
    km_traces(ctx, exe, jobs, "generated instances")
    jobs = [gen.big_job(ctx.rnd, f"b{i}", EXACT[i % 4]) for i in range(ctx.pick(12, 120))]
    km_traces(ctx, exe, jobs, "large row counts")
    wide_traces(ctx, exe, EXACT, 40)
    return "model_checking", {}


def c06(ctx):
    model_kmeans(ctx)
    exe = kmdrv()
    jobs = [gen.exact_job(ctx.rnd, i, EXACT[i % 4], style=ctx.rnd.choice(["wide", "line", "blobs", "tiny"]),
                          tol=ctx.rnd.choice([-1, 0.0, 0.5, 0.25, 0.125, 0.0625, 0.1, 0.2, 0.3, 0.05]))
            for i in range(ctx.pick(5000, 80000))]
    # row counts for which the tolerance is met with equality
    for j in jobs[::3]:
        n = ctx.rnd.choice([8, 16, 32])
        j["n"], j["data"] = n, gen.points(ctx.rnd, n, j["d"], ctx.rnd.choice(["wide", "line", "blobs"]))
        j["k"] = min(j["k"], 5)
        if j["init"] == "none":
            j["centers"] = gen.start_centers(ctx.rnd, j["data"], j["k"], j["d"])
        j["tol"] = ctx.rnd.choice([0.5, 0.25, 0.125, 0.0625])
    km_traces(ctx, exe, jobs, "generated instances", maxchain=24)
    jobs = [gen.big_job(ctx.rnd, f"b{i}", EXACT[i % 4], tol=ctx.rnd.choice([-1, 0.25, 0.1])) for i in range(ctx.pick(8, 80))]
    km_traces(ctx, exe, jobs, "large row counts")
    return "model_checking", {}


# ------------------------------------------------------------------ C09
def c09(ctx):
    exe = kmdrv()
    jobs = []
    for i in range(ctx.pick(6000, 80000)):
        e = (EXACT)[i % 4]
        jobs.append(gen.exact_job(ctx.rnd, i, e, init=ctx.rnd.choice(["forgy", "random", "kmeanspp", "kmeanspp", "none"])))
    km_traces(ctx, exe, jobs, "initialisations", maxchain=1)
    jobs = [gen.wide_job(ctx.rnd, f"w{i}", EXACT[i % 4], init=ctx.rnd.choice(["forgy", "random", "kmeanspp", "kmeanspp", "none"]))
            for i in range(ctx.pick(120, 3000))]
    km_traces(ctx, exe, jobs, "initialisations, many features, centres or rows", maxchain=1)
    chk_pp.model_pp(ctx)
    chk_pp.draws(ctx, exe)
    chk_pp.quants(ctx, exe)
    return "model_checking", {}


# ------------------------------------------------------------------ C21
def model_metrics(ctx):
    """Lloyd passes under the other metrics against independent definitions; wrong scans are refuted."""
    def one(met, bug, n, k, hi, expect=None, live=False):
        ctx.bg(ctx.model, "MCMetrics",
               "SPECIFICATION Spec\nINVARIANTS NearestSoFar Agree FirstWins ScaleFree\nPROPERTIES Refines"
               + (" Ends" if live else "") + "\nCHECK_DEADLOCK FALSE\n"
               f"CONSTANTS N={n} K={k} Lo=1 Hi={hi} Limit=3 MET=\"{met}\" Bug=\"{bug}\"\n",
               f"Lloyd in the plane, metric {met}, n={n} k={k} grid -1..{hi - 2}, variant {bug}", expect=expect,
               workers=3, timeout=3000)
    for met in ("taxi", "sqeucl", "cos"):
        one(met, "none", 2, 2, 3, live=True)
        if ctx.thorough:
            one(met, "none", 3, 2, 3, live=True)
            one(met, "none", 2, 3, 3)
            one(met, "none", 2, 2, 4)
    for met, bug in (("cos", "nosign"), ("cos", "unnormalised"), ("taxi", "othermetric"), ("sqeucl", "othermetric")):
        one(met, bug, 2, 2, 3, "is violated")


def c21(ctx):
    model_metrics(ctx)
    exe = kmdrv()
    jobs = []
    for i in range(ctx.pick(4500, 60000)):
        m = ["taxi", "sqeucl", "cos"][i % 3]
        e = "full" if m != "cos" else ctx.rnd.choice(["full", "auto"])    # the OpenMP engine takes eucl and cos
        if m == "cos":
            jobs.append(gen.cos_job(ctx.rnd, i, e))
        else:
            jobs.append(dict(gen.exact_job(ctx.rnd, i, e), dist=m))
    km_traces(ctx, exe, jobs, "metrics", variants=lambda j: [("other engine", {"engine": "full" if j["engine"] == "auto" or j["dist"] != "cos" else "auto",
                                                    "T": 3})])
    jobs = [dict(gen.wide_job(ctx.rnd, f"w{i}", "full"), dist=["taxi", "sqeucl"][i % 2]) for i in range(ctx.pick(40, 1000))]
    km_traces(ctx, exe, jobs, "metrics, many features, centres or rows", maxchain=5)
    return "model_checking", {}


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C05": c05, "C06": c06, "C09": c09, "C21": c21}
for m in (chk_conc, chk_obj, chk_pp, chk_h, chk_m, chk_d, chk_io):
    CHECKS.update(m.CHECKS)
