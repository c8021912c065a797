"""C11, C12: hierarchical k-means, x-means, g-means."""
import core, gen
from core import CheckError, log
from kmtrace import fx, fixed_factor, tol_frac

KINDS = ["hcl", "xm", "gm"]


def model_h(ctx):
    def one(n, r, cap, passes, undoes, bug="none", expect=None, tols="TolsB", minc=2, **kw):
        ctx.bg(ctx.model, "MCHClust",
               "SPECIFICATION MCSpec\nINVARIANTS IdsDistinct RowsPlaced FinMeans Capped DoneOk\n"
               "PROPERTIES Refines RetiredStay Ends\nCHECK_DEADLOCK FALSE\n"
               f'CONSTANTS N={n} R={r} Cap={cap} MinC={minc} Passes={passes} Undoes={undoes} Bug="{bug}"\n Tols<-{tols}\n',
               f"divisive clustering n={n} 0..{r} cap={cap} passes={passes} undo={undoes} variant {bug}",
               expect=expect, workers=3, timeout=3000, **kw)
    one(4, 1, 4, 2, "TRUE")
    one(4, 1, 4, 2, "FALSE")
    one(4, 1, 4, 1, "TRUE", "halfundo", "is violated")
    one(4, 1, 4, 1, "TRUE", "retiredid", "is violated")
    if ctx.thorough:
        one(4, 2, 4, 2, "FALSE")
        one(5, 2, 4, 2, "TRUE", tols="TolsA")
        one(5, 2, 4, 3, "FALSE", tols="TolsA")
        one(5, 1, 4, 1, "TRUE", minc=3)


def clumps(r, n, d):
    """Groups of groups of rows: splits that a criterion favours, some not quite."""
    m = r.randint(2, 4)
    big = [[r.randint(-45, 45) for _ in range(d)] for _ in range(m)]
    w1, w0 = r.choice([3, 6, 9, 12]), r.choice([0, 0, 1, 1, 2, 4])
    small = [[x + r.randint(-w1, w1) for x in c] for c in big for _ in range(r.randint(1, 4))]
    return [[x + r.randint(-w0, w0) for x in r.choice(small)] for _ in range(n)]


def h_job(r, jid, kind, metric=True):
    n = r.choice([2, 3, 4, r.randint(4, 12), r.randint(8, 24), r.randint(12, 40)])
    d = r.choice([1, 1, 2, 3])
    style = r.choice(gen.STYLES)
    caps = [2, 3, 4, 5, 6, 7, 8, 8, 9, 12, 16, 17]
    if r.random() < 0.02:
        n, d, style, caps = r.randint(40, 110), r.choice([2, 5, 8, 9, 17]), r.choice(["tiny", "tiny", "dups"]), [9, 17, 31, 32, 33, 40]
    data = gen.points(r, n, d, style)
    if kind != "hcl" and n <= 40 and r.random() < 0.6:
        n = r.choice([n, r.randint(10, 40), r.randint(20, 40)])
        data = clumps(r, n, d)
    j = dict(id=str(jid), engine=kind, n=n, d=d, k=r.choice(caps), T=r.choice([1, 2, 3, 4, 5, n]),
             maxit=r.choice([1, 1, 2, 3, 5, 20, 4294967295]), init=r.choice(["forgy", "forgy", "none"]), tol=r.choice([-1, -1, 0.0, 0.1, 0.25, 0.5]),
             dist=r.choice(["eucl", "eucl", "eucl", "eucl", "taxi", "sqeucl"]) if metric else "eucl",
             data=data, scale=gen.scale(r, [1, 1, 4, 10]), x={"min": r.choice([0, 1, 2, 2, 3, 4, 5, 8, 12, 18]), "strict": r.choice([0, 1, 2, 3, 4])})
    if j["init"] == "none":
        j["centers"] = gen.start_centers(r, data, 2, d)
    return j


def begin(j):
    maxabs = max([1] + [abs(v) for p in j["data"] for v in p] + [abs(v) for p in j.get("centers") or [] for v in p])
    cap = 1
    while cap * 2 <= j["k"]:
        cap *= 2
    tn, td = tol_frac(j["tol"])
    return {"e": "Begin", "P": j["data"], "d": j["d"], "metric": j["dist"], "cap": cap, "min": max(2, j["x"]["min"]), "tolN": tn,
            "tolD": td, "canUndo": j["engine"] != "hcl", "strict": j["x"]["strict"],
            "score": ({"xm": "bic", "gm": "ad"}.get(j["engine"], "") if j.get("score") else ""), "F": fixed_factor(j["n"], maxabs), "lim": min(j["maxit"], 10 ** 9)}


def end_event(j, F, kind, lab, cnt, cs, k, nrow, ncol, status="ok"):
    sc = j.get("scale", 1)
    return {"e": kind, "status": status, "lab": [v + 1 if -1 <= v < 10 ** 6 else -7 for v in lab], "cnt": [min(v, 10 ** 8) for v in cnt],
            "cs": [fx(v * sc * F) for v in cs], "k": min(k, 10 ** 8), "nrow": min(nrow, 10 ** 8), "ncol": min(ncol, 10 ** 8), "kreq": j["k"]}


def fail(s):
    return {"e": "Fail", "status": s}


# ------------------------------------------------------------ only the result
def result_items(exe, jobs, env=None):
    res = core.run_jobs(exe, jobs, timeout=30, env=env)
    items = []
    for j in jobs:
        b, r = begin(j), res[j["id"]]
        ev = [b, end_event(j, b["F"], "Only", r["assign"], r["counts"], r["cent"], r["k"], r["nrow"], r["ncol"])
              if r["status"] == "ok" else fail(r["status"])]
        items.append((j, ev))
    return items


# -------------------------------------------------------------- every step
def step_text(j):
    sc = j.get("scale", 1)
    v = lambda x: repr(x / sc)
    p = [j["engine"], j["n"], j["d"], j["k"], j["maxit"], j["T"], j["init"], j["dist"], repr(float(j["tol"])), j["x"]["min"], j["x"]["strict"]]
    p += [v(x) for row in j["data"] for x in row]
    c = [v(x) for row in j.get("centers") or [] for x in row]
    return " ".join(map(str, p + [len(c)] + c))


def parse_state(t, j, F):
    n, d, sc = j["n"], j["d"], j.get("scale", 1)
    it = iter(t[1:])
    I = lambda: int(next(it))
    X = lambda: fx(float(next(it)) * sc * F)
    ident = lambda v: v if 0 <= v < 10 ** 8 else -9
    e = {"e": {"INIT": "Init", "PASS": "Pass", "DECIDE": "Decide", "SPLIT": "Split"}[t[0]]}
    e["lab"] = [ident(I()) for _ in range(n)]
    e["part"] = [ident(I()) for _ in range(n)]
    e["cnt"] = [[ident(I()), min(I(), 10 ** 8)] for _ in range(I())]
    e["par"] = []
    for _ in range(I()):
        p = {"p": ident(I()), "l": ident(I()), "r": ident(I()), "conv": I() == 1, "n": [min(I(), 10 ** 8), min(I(), 10 ** 8)]}
        p["c"] = [[X() for _ in range(d)], [X() for _ in range(d)]]
        e["par"].append(p)
    e["fin"] = []
    for _ in range(I()):
        e["fin"].append({"id": ident(I()), "c": [X() for _ in range(d)]})
    if e["e"] == "Init":
        e["given"] = [list(c) for c in j.get("centers") or []]
    return e


def step_items(exe, jobs):
    res = core.run_lines(exe, [(j["id"], step_text(j)) for j in jobs], timeout=30)
    items = []
    for j in jobs:
        b = begin(j)
        ev = [b]
        recs, bad = res.get(j["id"], ([], "lost"))
        for t in recs:
            if t[0] == "EXC":
                ev.append(fail("exception"))
            elif t[0] == "END":
                it = iter(t[1:])
                lab = [int(next(it)) for _ in range(int(next(it)))]
                cnt = [int(next(it)) for _ in range(int(next(it)))]
                cs = [float(next(it)) for _ in range(int(next(it)))]
                ev.append(end_event(j, b["F"], "End", lab, cnt, cs, int(next(it)), int(next(it)), int(next(it))))
            else:
                ev.append(parse_state(t, j, b["F"]))
        if bad or ev[-1]["e"] not in ("End", "Fail"):
            ev.append(fail(bad or "no result"))
        items.append((j, ev))
    return items


def corrupt_result(ev, rnd):
    e = ev[-1]
    if e["e"] not in ("Only", "End"):
        return None
    how = rnd.choice(["cnt", "cs", "lab"])
    if how == "cnt":
        e["cnt"][0] += 1
    elif how == "cs":
        e["cs"][-1] += 5
    else:
        e["lab"][0] = len(e["cnt"]) + 1
    return ev


def corrupt_steps(ev, rnd):
    ps = [e for e in ev if e["e"] in ("Pass", "Split", "Decide")]
    if not ps:
        return None
    e = rnd.choice(ps)
    how = rnd.choice(["lab", "cen", "fin", "cnt"])
    if how == "cen" and e["par"]:
        e["par"][0]["c"][0][0] += 60000
    elif how == "fin" and e["fin"]:
        e["fin"][0]["c"][0] += 5
    elif how == "cnt" and e["cnt"]:
        e["cnt"][0][1] += 1
    else:
        e["lab"][0] += 1
    return ev


def c11(ctx):
    model_h(ctx)
    exe = core.build_exe("kmdrv", ["kmdrv.cpp"])
    jobs = [h_job(ctx.rnd, i, KINDS[i % 3]) for i in range(ctx.pick(4500, 60000))]
    ctx.traces("HClustTrace", result_items(exe, jobs), label="results", canary=corrupt_result,
               rerun=lambda j: result_items(exe, [j])[0][1])
    if ctx.thorough:
        asan = core.build_exe("kmasan", ["kmdrv.cpp"], variant="asan", extra=("-fsanitize=address", "-g"))
        env = {"ASAN_OPTIONS": "detect_leaks=0"}
        jobs = [h_job(ctx.rnd, f"a{i}", KINDS[i % 3]) for i in range(12000)]
        ctx.traces("HClustTrace", result_items(asan, jobs, env), label="results with address sanitizer",
                   rerun=lambda j: result_items(asan, [j], env)[0][1])
    return "model_checking", {}


def c12(ctx):
    model_h(ctx)
    try:
        exe = core.build_exe("hclobs", ["hclobs.cpp"])
    except CheckError as e:
        # the steps are not observable in this tree: only the results are judged
        log(f"[C12] observing harness does not build: {str(e)[-600:]}")
        ctx.notes.append("the step-observing harness did not build against this tree; only results were judged")
        exe = core.build_exe("kmdrv", ["kmdrv.cpp"])
        jobs = [h_job(ctx.rnd, i, KINDS[i % 3]) for i in range(ctx.pick(4500, 60000))]
        ctx.traces("HClustTrace", result_items(exe, jobs), label="results", canary=corrupt_result,
                   rerun=lambda j: result_items(exe, [j])[0][1])
        return "model_checking", {"steps_observed": False}
    jobs = [h_job(ctx.rnd, i, KINDS[i % 3]) for i in range(ctx.pick(3000, 40000))]
    ctx.traces("HClustTrace", step_items(exe, jobs), label="steps", canary=corrupt_steps,
               rerun=lambda j: step_items(exe, [j])[0][1])
    return "model_checking", {"steps_observed": True}


# ------------------------------------------------------- which splits are kept
def model_split(ctx):
    inv = "UnitFree OriginFree OrderFree AdUnitFree NoEmptyChild Stricter NormalStays ClumpsPart LnOk LpOk"
    def one(n, r, bug="none", expect=None):
        ctx.bg(ctx.model, "MCSplit", f'SPECIFICATION Spec\nINVARIANTS {inv}\nCHECK_DEADLOCK FALSE\nCONSTANTS N={n} R={r} Bug="{bug}"\n',
               f"split criteria n={n} 0..{r} variant {bug}", expect=expect, workers=4, timeout=3000)
    one(5, 3)
    one(4, 3, "whole", "UnitFree is violated")
    one(4, 3, "parts", "is violated")
    if ctx.thorough:
        one(6, 6)
        one(7, 4)


def score_job(r, jid, kind):
    while True:
        j = h_job(r, jid, kind)
        if j["n"] <= 40 and j["d"] <= 3:
            break
    j["score"] = True
    if r.random() < 0.6:
        j["k"] = r.choice([8, 16, 16, 32])
    if r.random() < 0.7:
        j["maxit"] = r.choice([5, 20, 4294967295])
    return j


def corrupt_decision(ev, rnd):
    """Report an undone split as kept where no criterion could keep it: a child has no rows, or there are two rows."""
    for k in range(1, len(ev)):
        a, b = ev[k - 1], ev[k]
        if b["e"] == "Decide" and a["e"] == "Pass" and len(a["par"]) == 1 and not b["par"]:
            if min(a["par"][0]["n"]) == 0 or sum(a["par"][0]["n"]) == 2:
                return ev[:k] + [dict(a, e="Decide")]
    return None


def c26(ctx):
    model_split(ctx)
    try:
        exe = core.build_exe("hclobs", ["hclobs.cpp"])
    except CheckError as e:
        log(f"[C26] observing harness does not build: {str(e)[-600:]}")
        ctx.notes.append("the step-observing harness did not build against this tree; only results were judged")
        exe = core.build_exe("kmdrv", ["kmdrv.cpp"])
        jobs = [score_job(ctx.rnd, i, KINDS[1 + i % 2]) for i in range(ctx.pick(3000, 40000))]
        ctx.traces("HClustTrace", result_items(exe, jobs), label="results", canary=corrupt_result,
                   rerun=lambda j: result_items(exe, [j])[0][1])
        return "model_checking", {"steps_observed": False}
    jobs = [score_job(ctx.rnd, i, KINDS[1 + i % 2]) for i in range(ctx.pick(3000, 40000))]
    ctx.traces("HClustTrace", step_items(exe, jobs), label="decisions", canary=corrupt_decision,
               rerun=lambda j: step_items(exe, [j])[0][1])
    return "model_checking", {"steps_observed": True}


CHECKS = {"C26": c26, "C11": c11, "C12": c12}
