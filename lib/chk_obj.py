"""C08 work distribution, C19 accumulators, C20 bookkeeping, C23 centre distances: operation
sequences replayed into the real objects, every observation judged by the specification."""
import itertools, json, math, os
import core, gen
from core import run_lines

SENT = 999999999


def objdrv():
    return core.build_exe("objdrv", ["objdrv.cpp"], variant="asan", libs=("libkcommon", "libman"),
                          extra=("-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"))


ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0"}


def gen_json(ctx, module, cfg, seed=None, simulate=None, depth=None, timeout=300):
    """Behaviours printed by a specification ('I {json}')."""
    extra = []
    if simulate:
        extra = ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(seed)]
    r = core.tlc(module, cfg, workers=1, timeout=timeout, extra=extra)
    if r["rc"] not in (0,) and not ("I " in r["out"] and simulate):
        raise core.CheckError(f"{module}: {r['out'][-2000:]}")
    out = []
    for line in r["out"].splitlines():
        if line.startswith('"I '):
            out.append(json.loads(line.strip()[1:-1][2:].replace('\\"', '"')))
    ctx.states += r["distinct"]
    ctx.transitions += r["generated"]
    return out


def near_int(x):
    if x != x or abs(x) > 5e8:
        return SENT
    r = round(x)
    return r if abs(x - r) < 1e-6 * max(1.0, abs(x) * 1e-3) else SENT


# ------------------------------------------------------------------ C19
def acc_line(j):
    c = j["cfg"]
    s = [f"clusters {c['ty']} {c['k']} {c['d']} {c['na']}"]
    sc = j["scale"]
    val = lambda v: " ".join(repr(x / sc) for x in v)
    for o in j["ops"]:
        a, op = o["a"] - 1, o["op"]
        if op in ("add", "addit", "rem", "remit"):
            s.append(f"{op} {a} {o['c'] - 1} {val(o['v'])}")
        elif op in ("swap", "swapit"):
            s.append(f"{op} {a} {o['c'] - 1} {o['c2'] - 1} {val(o['v'])}")
        elif op in ("peq", "pluseq", "sums"):
            s.append(f"{op} {a} {o['b'] - 1}")
        elif op in ("fin", "unfin"):
            s.append(f"{op} {a} {o['c'] - 1}")
        elif op in ("setpd", "sets"):
            s.append(f"{op} {a} {o['c'] - 1} {o['x']}")
        else:
            s.append(f"{op} {a}")
    return " ; ".join(s)


def acc_trace(j, res):
    vals, fail = res
    c, sc = j["cfg"], j["scale"]
    d = c["d"]
    ev = [{"e": "Begin", "ty": c["ty"], "k": c["k"], "d": d, "na": c["na"]}]
    for q, o in enumerate(j["ops"]):
        base = dict(o, e="Op", obs=[], prev=[], pd=[], sv=[])
        if q >= len(vals):
            if fail:
                ev.append(dict(base, res="crash"))
            break
        t = vals[q]
        it = iter(t)
        base["res"] = next(it)
        k, dd = int(next(it)), int(next(it))
        for _ in range(k):
            n, fin = int(next(it)), next(it) == "1"
            x = [float(next(it)) for _ in range(dd)]
            m = n if fin and n > 1 else 1
            base["obs"].append({"n": n, "fin": fin, "q": [near_int(v * m * sc) for v in x]})
        rest = list(it)
        if rest and rest[0] == "P":
            f = [float(v) for v in rest[1:]]
            base["prev"] = [[round(v * sc * 5040) if abs(v * sc) < 1e5 else SENT for v in f[i * dd:(i + 1) * dd]] for i in range(k)]
            g = f[k * dd:]
            base["pd"] = [near_int(g[2 * i]) for i in range(k)]
            base["sv"] = [1000000 if g[2 * i + 1] > 1e300 else near_int(g[2 * i + 1]) for i in range(k)]
        ev.append(base)
    if fail and len(vals) >= len(j["ops"]):
        ev.append(dict(j["ops"][-1], e="Op", obs=[], prev=[], pd=[], sv=[], res="crash"))
    return ev


def corrupt_acc(ev, rnd):
    ops = [e for e in ev if e["e"] == "Op" and e["obs"]]
    if not ops:
        return None
    e = rnd.choice(ops)
    o = rnd.choice(e["obs"])
    how = rnd.choice(["n", "fin", "q"])
    if how == "n":
        o["n"] += 1
    elif how == "fin":
        o["fin"] = not o["fin"]
    else:
        o["q"][0] += 1
    return ev


def c19(ctx):
    for na, k in ((1, 2), (2, 1)):
        for bug, exp in (("none", None), ("divtwice", "Rep is violated"), ("unfin3", "Rep is violated"),
                         ("keepflag", "Rep is violated"), ("swapcount", "Rep is violated")):
            if bug == "swapcount" and k == 1:
                continue
            n = ctx.pick(3, 5) if bug == "none" else 3
            ctx.bg(ctx.model, "MCAccum", f"SPECIFICATION Spec\nINVARIANT Rep\nCONSTRAINT Bounded\nCHECK_DEADLOCK FALSE\n"
                   f"CONSTANTS NA={na} K={k} Vals={{1,2}} MaxN={n} Bug=\"{bug}\"\n",
                   f"accumulator representation, {na} with {k} clusters, counts up to {n}, variant {bug}",
                   expect=exp, timeout=3000, heap="8g", workers=3)
    exe = objdrv()
    depth = 30
    total = ctx.pick(6000, 80000)
    # several simulators beside each other: one process each
    from concurrent.futures import ThreadPoolExecutor
    parts = 6
    with ThreadPoolExecutor(parts) as ex:
        seqs = sum(ex.map(lambda i: gen_json(ctx, "GenAccum", f"SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANT D={depth}\n",
                                             seed=ctx.rnd.randrange(10 ** 6) + i, simulate=total // parts, depth=depth), range(parts)), [])
    jobs = []
    for i, s in enumerate(seqs):
        if s["ops"]:
            jobs.append(dict(id=f"a{i}", cfg=s["cfg"], ops=s["ops"], scale=gen.scale(ctx.rnd, [1, 1, 4, 8])))

    def run(js):
        res = run_lines(exe, [(j["id"], acc_line(j)) for j in js], env=ASAN)
        return [(j, acc_trace(j, res[j["id"]])) for j in js if j["id"] in res]
    ctx.traces("AccumTrace", run(jobs), label="operation sequences from the specification", canary=corrupt_acc,
               rerun=lambda j: run([j])[0][1], tries=2)
    ops = {}
    for j in jobs:
        for o in j["ops"]:
            ops[o["op"]] = ops.get(o["op"], 0) + 1
    return "model_checking", {"operations_replayed": ops}


# ------------------------------------------------------------------ C20
def idf_line(j):
    k = j["kind"]
    if k == "ids":
        return "ids " + " ".join("; get" if o == 0 else f"; rec {o}" for o in j["ops"])
    if k == "flags":
        return f"flags {j['n']} {int(j['init'])} " + " ".join(f"; {o[0]} {o[1]} {int(o[2])}" for o in j["ops"])
    if k == "vmap":
        return f"vmap {j['how']} {j['n']} {j['unset']} " + " ".join("; " + " ".join(map(str, o)) for o in j["ops"])
    return "compact ; " + " ; ".join("c " + " ".join(map(str, o)) for o in j["ops"])


def idf_trace(j, res):
    vals, fail = res
    k = j["kind"]
    ev = [{"e": "Begin", "kind": k, "n": j.get("n", 0), "init": j.get("init", False), "unset": j.get("unset", 0)}]
    for o, t in zip(j["ops"], vals):
        if k == "ids":
            ev.append({"e": "Op", "op": "get", "l": int(t[0]), "r": int(t[1])} if o == 0
                      else {"e": "Op", "op": "rec", "i": o, "id": int(t[0])})
        elif k == "flags":
            n = int(t[0])
            ev.append({"e": "Op", "op": o[0], "i": o[1] + 1, "b": bool(o[2]), "obs": [int(x) for x in t[1:1 + n]]})
        elif k == "vmap":
            n = int(t[0])
            h, kk, ii, xx = t.index("H"), t.index("K"), t.index("I"), t.index("X")
            it = [int(x) for x in t[ii + 1:xx]]
            ev.append({"e": "Op", "op": o[0], "i": (o[1] + (0 if o[0] == "cap" else 1)) if len(o) > 1 else 0,
                       "x": o[2] if len(o) > 2 else 0, "empty": int(t[1]), "keyless": int(t[2]), "count": int(t[3]),
                       "vals": [int(x) for x in t[4:h]], "has": [int(x) for x in t[h + 1:kk]],
                       "keys": [int(x) + 1 for x in t[kk + 2:ii]],
                       "iter": [[it[q] + 1, it[q + 1]] for q in range(0, len(it), 2)], "beyond": t[xx + 1]})
        else:
            n = int(t[0])
            m = int(t[1 + n])
            p = [int(x) for x in t[2 + n:]]
            ev.append({"e": "Op", "op": "compact", "c": o, "counts": [int(x) for x in t[1:1 + n]],
                       "ids": [[p[2 * q] + 1, p[2 * q + 1] + 1] for q in range(m)]})
    if fail:
        ev.append({"e": "Crash", "info": fail})
    return ev


def corrupt_idf(ev, rnd):
    e = ev[-1]
    if e["e"] != "Op":
        return None
    k = ev[0]["kind"]
    if k == "ids":
        if e["op"] != "get":
            return None
        e["l"] = e["r"]
    elif k == "flags":
        if not e["obs"]:
            return None
        i = rnd.randrange(len(e["obs"]))
        e["obs"][i] = 1 - e["obs"][i]
    elif k == "vmap":
        e["count"] += 1
    else:
        e["counts"] = e["counts"] + [5]
    return ev


def c20(ctx):
    D = ctx.pick(7, 8)
    for bug, exp in (("none", None), ("peek", "is violated"), ("fromzero", "is violated")):
        ctx.bg(ctx.model, "MCIdGen", f"SPECIFICATION Spec\nINVARIANTS Good Apart\nCHECK_DEADLOCK FALSE\n"
               f"CONSTANTS D={ctx.pick(7, 9)} Bug=\"{bug}\" Out=FALSE\n", f"id generator, all histories, variant {bug}", expect=exp,
               timeout=3000, heap="8g")
    exe = objdrv()
    r = ctx.rnd
    jobs = []
    hist = gen_json(ctx, "MCIdGen", f"SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS D={D} Bug=\"none\" Out=TRUE\n", timeout=900)
    for i, h in enumerate(hist):
        jobs.append(dict(id=f"i{i}", kind="ids", ops=h))
    for i in range(ctx.pick(300, 5000)):          # long histories
        live, ops = 0, []
        for _ in range(r.randint(20, 120)):
            if live == 0 or r.random() < 0.45:
                ops.append(0)
                live += 2
            else:
                ops.append(r.choice([1, live, r.randint(1, live)]))
                live -= 1
        jobs.append(dict(id=f"I{i}", kind="ids", ops=ops))
    # flag vectors: all short histories, then long ones
    for n in (0, 1, 2):
        acts = [("cset", i, b) for i in range(n + 3) for b in (0, 1)]
        for m, ops in enumerate(itertools.product(acts, repeat=2)):
            jobs.append(dict(id=f"f{n}.{m}", kind="flags", n=n, init=bool(m % 2), ops=list(ops)))
    for i in range(ctx.pick(800, 10000)):
        n = r.choice([0, 1, 2, 5, 9])
        sz, ops = n, []
        for _ in range(r.randint(1, 25)):
            if sz and r.random() < 0.5:
                ops.append(("set", r.randrange(sz), r.randint(0, 1)))
            else:
                x = r.choice([sz, sz, sz + 1, sz + r.randint(0, 5), r.randrange(sz + 1)])
                ops.append(("cset", x, r.randint(0, 1)))
                sz = max(sz, x + 1)
        jobs.append(dict(id=f"F{i}", kind="flags", n=n, init=r.random() < 0.5, ops=ops))
    # index maps
    for i in range(ctx.pick(2500, 30000)):
        how = r.choice(["def", "new"])
        n, e = (0, 0) if how == "def" else (r.choice([0, 0, 1, 3, 6]), r.choice([0, 0, -1, 99]))
        ops, sz = [("look",)], n
        for _ in range(r.randint(1, 18)):
            q = r.random()
            if q < 0.6 or sz == 0:
                x = r.choice([sz, sz + 1, sz + r.randint(0, 4), r.randrange(sz + 1)])
                ops.append((r.choice(["put", "put", "putat"]), x, r.choice([1, 2, 3, e, 0, 7])))
                sz = max(sz, x + 1)
            elif q < 0.85:
                ops.append(("erase", r.randrange(sz)))
            elif q < 0.95:
                ops.append(("clear",))
            else:
                sz = r.randint(0, 5)
                ops.append(("cap", sz))
        jobs.append(dict(id=f"m{i}", kind="vmap", how=how, n=n, unset=e, ops=ops))
    # compaction: every vector of up to 5 counts from {0, 1, 3}, then long ones
    vs = [list(v) for m in range(1, 6) for v in itertools.product([0, 1, 3], repeat=m)]
    vs += [[r.choice([0, 0, 1, 5, 100000]) for _ in range(r.randint(6, 40))] for _ in range(ctx.pick(300, 3000))]
    for i in range(0, len(vs), 6):
        jobs.append(dict(id=f"c{i}", kind="compact", ops=vs[i:i + 6]))

    def run(js):
        res = run_lines(exe, [(j["id"], idf_line(j)) for j in js], env=ASAN)
        return [(j, idf_trace(j, res[j["id"]])) for j in js if j["id"] in res]
    ctx.traces("IdFlagsTrace", run(jobs), label="operation sequences", canary=corrupt_idf, rerun=lambda j: run([j])[0][1], tries=2)
    return "model_checking", {"id_histories_enumerated": len(hist), "sequences": len(jobs)}


# ------------------------------------------------------------------ C23
def dm_line(j):
    s = [f"dm {j['k']} {j['d']}"]
    sc = j["scale"]
    val = lambda v: " ".join(repr(x / sc) for x in v)
    for o in j["ops"]:
        if o[0] == "move":
            s.append(f"move {o[1]} {val(o[2])}")
        elif o[0] == "all":
            s.append("all " + " ".join(val(v) for v in o[1]))
        elif o[0] == "compute":
            s.append("compute")
        else:
            s.append(f"pair {o[1]} " + " ".join(val(v) for v in o[2]))
    return " ; ".join(s)


def dm_trace(j, res):
    vals, fail = res
    k, sc = j["k"], j["scale"]
    ev = [{"e": "Begin", "cen": [[0] * j["d"] for _ in range(k)]}]
    sq = lambda v: near_int((2 * v * sc) ** 2) if v < 1e100 else SENT
    for o, t in zip(j["ops"], vals):
        if o[0] == "move":
            ev.append({"e": "Move", "i": o[1] + 1, "v": o[2]})
        elif o[0] == "all":
            ev.append({"e": "All", "cen": o[1]})
        else:
            f = iter(float(x) for x in t)
            conv = sq if o[0] == "compute" else (lambda v: near_int(v * sc)) if o[1] == "taxi" else (lambda v: near_int((v * sc) ** 2))
            G, P, S = [[0] * k for _ in range(k)], [[0] * k for _ in range(k)], []
            for a in range(k):
                for b in range(k):
                    if a != b:
                        G[a][b], P[a][b] = conv(next(f)), conv(next(f))
                    elif o[0] == "pair":
                        S.append(near_int(next(f)))
            if o[0] == "compute":
                th, mi = [], []
                for a in range(k):
                    th.append(sq(next(f)))
                    mi.append(sq(next(f)))
                ev.append({"e": "Compute", "get": G, "pw": P, "thr": th, "mins": mi})
            else:
                ev.append({"e": "Pairs", "metric": o[1], "pts": o[2], "get": G, "pw": P, "self": S})
    if fail:
        ev.append({"e": "Crash", "info": fail})
    return ev


def corrupt_dm(ev, rnd):
    c = [e for e in ev if e["e"] == "Compute"]
    if not c:
        return None
    e = rnd.choice(c)
    how = rnd.choice(["get", "thr"])
    if how == "thr":
        e["thr"][0] += 1
    else:
        e["get"][0][1] += 1
    return ev


def c23(ctx):
    for bug, exp in (("none", None), ("noreset", "Exact is violated"), ("onlyrow", "Exact is violated")):
        k, rr = (3, ctx.pick(3, 4))
        ctx.bg(ctx.model, "MCDistTable", f"SPECIFICATION Spec\nINVARIANT Exact\nCHECK_DEADLOCK FALSE\nCONSTANTS K={k} R={rr} Bug=\"{bug}\"\n",
               f"distance table with {k} centres on 0..{rr}, variant {bug}", expect=exp, timeout=3000)
    if ctx.thorough:
        ctx.bg(ctx.model, "MCDistTable", "SPECIFICATION Spec\nINVARIANT Exact\nCHECK_DEADLOCK FALSE\nCONSTANTS K=4 R=3 Bug=\"none\"\n",
               "distance table with 4 centres on 0..3", timeout=3000, heap="12g")
    exe = objdrv()
    r = ctx.rnd
    jobs = []
    for i in range(ctx.pick(4000, 60000)):
        k, d = r.choice([2, 2, 3, 3, 4, 5, 8, 12]), r.choice([1, 2, 3, 5])
        if r.random() < 0.03:
            k, d = r.choice([9, 16, 17, 33]), r.choice([4, 8, 9, 17])
        R = r.choice([1, 3, 20, 60]) if d < 6 else r.choice([1, 3, 12])
        pt = lambda: [r.randint(-R, R) for _ in range(d)]
        ops = [("all", [pt() for _ in range(k)]), ("compute",)]
        for _ in range(r.randint(0, 6)):
            q = r.random()
            if q < 0.5:
                ops.append(("move", r.randrange(k), pt()))
            elif q < 0.6:
                ops.append(("all", [pt() for _ in range(k)]))
            elif q < 0.9:
                ops.append(("compute",))
            else:
                ops.append(("pair", r.choice(["taxi", "eucl"]), [pt() for _ in range(k)]))
        ops.append(("compute",))
        jobs.append(dict(id=f"d{i}", k=k, d=d, ops=ops, scale=gen.scale(r, [1, 1, 2, 8, 10])))

    def run(js):
        res = run_lines(exe, [(j["id"], dm_line(j)) for j in js], env=ASAN)
        return [(j, dm_trace(j, res[j["id"]])) for j in js if j["id"] in res]
    ctx.traces("DistTableTrace", run(jobs), label="moves and recomputations", canary=corrupt_dm, rerun=lambda j: run([j])[0][1], tries=2)
    return "model_checking", {}


# ------------------------------------------------------------------ C08
def queue_trace(j, res):
    vals, fail = res
    ev = [{"e": "Begin", "n": j["n"]}, {"e": "Range", "t": 1, "from": j["start"], "n": j["n"]}, {"e": "Ranges", "base": j["start"]}]
    for o, t in zip(j["ops"], vals):
        if o == "reset":
            ev.append({"e": "Reset", "t": 1})
        elif t[0] == "1":
            ev.append({"e": "Take", "t": 1, "from": min(int(t[1]), SENT), "n": min(int(t[2]), SENT), "first": int(t[3]), "last": int(t[4])})
            if t[5] == "0":
                ev.append({"e": "PassEnd", "t": 1})
        else:
            ev.append({"e": "PassEnd", "t": 1})
    if fail:
        ev.append({"e": "Crash", "info": fail})
    return ev


def part_trace(j, res):
    vals, fail = res
    ev = [{"e": "Begin", "n": j["n"]}]
    told = False
    for t in vals:
        if t[0] == "range":
            if t[2] != t[3]:
                ev.append({"e": "Crash", "info": f"thread {t[1]} starts at {t[3]}, range at {t[2]}"})
            ev.append({"e": "Range", "t": int(t[1]) + 1, "from": int(t[2]), "n": int(t[4])})
            continue
        if not told:
            ev.append({"e": "Ranges", "base": 0})
            told = True
        if t[0] == "reset":
            ev.append({"e": "Reset", "t": int(t[1]) + 1})
        elif t[0] == "take":
            ev.append({"e": "Take", "t": int(t[1]) + 1, "from": min(int(t[2]), SENT), "n": min(int(t[3]), SENT), "first": int(t[4]), "last": int(t[5])})
        elif t[0] == "end":
            ev.append({"e": "PassEnd", "t": int(t[1]) + 1})
        elif t[0] == "lookup":
            ev.append({"e": "Lookup", "row": int(t[1]), "got": int(t[2])})
    if fail:
        ev.append({"e": "Crash", "info": fail})
    return ev


def corrupt_work(ev, rnd):
    c = [e for e in ev if e["e"] in ("Take", "Lookup", "Range")]
    if not c:
        return None
    e = rnd.choice(c)
    if e["e"] == "Take":
        e["n"] -= 1
    elif e["e"] == "Lookup":
        e["got"] += 1
    else:
        e["n"] += 1
    return ev


def c08(ctx):
    for bug, exp in (("none", None), ("droprest", "RangesOk is violated"), ("stale", "is violated"), ("lastrow", "is violated")):
        n, t = (ctx.pick(9, 12), ctx.pick(3, 4)) if bug == "none" else (9, 3)
        for m in ((1, 2, 3) if bug == "none" else (2,)):
            ctx.bg(ctx.model, "MCWork", f"SPECIFICATION Spec\nINVARIANTS RangesOk GivenOk DoneOk\nCHECK_DEADLOCK FALSE\n"
                   f"CONSTANTS MaxN={n} MaxT={t} Min={m} Bug=\"{bug}\"\n", f"rows up to {n}, threads up to {t}, task size {m}, variant {bug}",
                   expect=exp, timeout=3000, heap="8g")
    r = ctx.rnd
    exe = objdrv()
    jobs = []
    sizes = [0, 1, 2, 3, 7, 8190, 8191, 8192, 8193, 8194, 8195, 16383, 16384, 16385, 16386, 16387, 24576, 24577, 24578, 40000]
    for i in range(ctx.pick(300, 3000)):
        n = r.choice(sizes) if r.random() < 0.7 else r.randint(0, 30000)
        # take until the queue is empty and once more; stop early sometimes, then start over
        t = n // 8192 + 2
        ops = ["take"] * r.choice([t, t, r.randint(0, t)]) + ["reset"] + ["take"] * t
        if r.random() < 0.3:
            ops += ["reset"] + ["take"] * t
        jobs.append(dict(id=f"q{i}", n=n, start=r.choice([0, 0, 5, 8192, 100001]), d=r.choice([1, 2, 3]), how=r.choice(["full", "late"]), ops=ops))

    def runq(js):
        res = run_lines(exe, [(j["id"], f"queue {j['start']} {j['n']} {j['d']} {j['how']} " + " ".join("; " + o for o in j["ops"])) for j in js], env=ASAN)
        return [(j, queue_trace(j, res[j["id"]])) for j in js if j["id"] in res]
    ctx.traces("WorkTrace", runq(jobs), label="task queues", canary=corrupt_work, rerun=lambda j: runq([j])[0][1], tries=2)
    pexe = core.build_exe("partdrv", ["partdrv.cpp"], libs=("libkcommon", "libman"))
    jobs = []
    engs = ["full", "prune", "prune", "skm", "fcm", "hcl"]
    for i in range(ctx.pick(700, 8000)):
        e = engs[i % len(engs)]
        big = r.random() < 0.08 and e != "hcl"
        n = r.choice([8191, 8192, 8193, 8195, 16384, 16386, 20011, 33000]) if big else r.choice([4, 5, 6, 7, r.randint(4, 40), r.randint(4, 200)])
        T = r.choice([1, 2, 3, 4, 5, 7, 8, 12, n - 1, n, n + 1, n + 5])
        T = max(1, min(T, 24))
        place = r.choice(["mem", "file", "numa"]) if e in ("full", "prune") else r.choice(["mem", "file"])
        jobs.append(dict(id=f"p{i}", engine=e, n=n, d=r.choice([1, 2, 3]), k=2, T=T, place=place))

    def runp(js):
        res = run_lines(pexe, [(j["id"], f"{j['engine']} {j['n']} {j['d']} {j['k']} {j['T']} {j['place']} 7") for j in js],
                        args=[core.scratch()], timeout=40)
        return [(j, part_trace(j, res[j["id"]])) for j in js if j["id"] in res]
    ctx.traces("WorkTrace", runp(jobs), label="coordinators: ranges, tasks, lookups", canary=corrupt_work, rerun=lambda j: runp([j])[0][1], tries=3)
    return "model_checking", {}


# ------------------------------------------------------------------ C24
def mat_line(j):
    return "mat " + " ".join("; " + " ".join(str(x) for x in o["w"]) for o in j["ops"])


def milli(x):
    return round(x * 1000) if x == x and abs(x) < 2e6 else SENT


def mat_trace(j, res):
    vals, fail = res
    ev = [{"e": "Begin"}]
    for o, t in zip(j["ops"], vals):
        e = {"e": "Op", "op": o["op"], "a": o.get("a", 0) + 1, "b": o.get("b", 0) + 1, "c": o.get("c", 0) + 1,
             "r": o.get("r", 0), "k": o.get("k", 0), "v": o.get("v", []), "kind": t[0], "obs": [], "sq": []}
        if t[0] == "M":
            r, c = int(t[1]), int(t[2])
            f = [milli(float(x)) for x in t[3:]]
            e["obs"] = {"r": r, "c": c, "m": [f[i * c:(i + 1) * c] for i in range(r)]}
        elif t[0] == "V":
            e["obs"] = [milli(float(x)) for x in t[2:]]
            if o["op"] == "zscore":
                e["sq"] = [milli(float(x) ** 2) for x in t[2:]]
        elif t[0] == "S":
            x = float(t[1])
            if o["op"] in ("fro", "vfro"):
                e["kind"] = "Q"
                e["obs"] = [near_int(x * x) if x >= 0 else SENT]
            else:
                e["obs"] = [milli(x)]
        ev.append(e)
    if fail:
        ev.append({"e": "Crash", "info": fail})
    return ev


def corrupt_mat(ev, rnd):
    c = [e for e in ev if e["e"] == "Op" and e["kind"] in ("V", "S", "M") and e["obs"] and e["op"] != "zscore"]
    if not c:
        return None
    e = rnd.choice(c)
    if e["kind"] == "M":
        m = e["obs"]["m"]
        if not m or not m[0]:
            return None
        m[rnd.randrange(len(m))][rnd.randrange(len(m[0]))] += 1000
    else:
        e["obs"][rnd.randrange(len(e["obs"]))] += 1000
    return ev


def mat_job(r, i):
    """A sequence on three registers; shapes, sizes of the values and divisibility are tracked so that all is exact."""
    reg = [None] * 3            # (rows, cols, bound on |entries|, multiples of 12)
    ops = []

    def push(op, *w, **kw):
        ops.append(dict(kw, op=op, w=[op, *w]))
    q = lambda a: reg[a]
    for _ in range(r.randint(3, 9)):
        a = r.randrange(3)
        have = [x for x in range(3) if reg[x]]
        if reg[a] is None or r.random() < 0.3:
            R, C = r.choice([(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 3), (4, 4), (5, 5), (2, 5), (6, 3)])
            if r.random() < 0.1:
                push("loadz", a, R, C, a=a, r=R, k=C)
                reg[a] = (R, C, 0, True)
                continue
            div = r.random() < 0.35
            m = r.choice([1, 2, 3]) if not div else 1
            lo = r.choice([-1, -1, 0])
            hi = r.choice([1, 1, 0]) if lo else 1
            v = [r.randint(lo * m, hi * m) * (12 if div else 1) * r.choice([1, 1, 2] if div else [1]) for _ in range(R * C)]
            if R == C and R > 1 and r.random() < 0.15:          # make it singular
                v[C:2 * C] = v[:C]
            push("load", a, R, C, *v, a=a, r=R, k=C, v=v)
            reg[a] = (R, C, max(1, max(map(abs, v))), div)
            continue
        R, C, bd, div = reg[a]
        b = r.choice(have)
        same = [x for x in have if reg[x][:2] == reg[b][:2]]
        op = r.choice(["clone", "copy", "setrow", "put", "bump", "zero", "mul", "mul", "add", "sub", "pluseq", "subv", "divs", "divv",
                       "diveq", "divpow", "pow", "mean", "mean", "sumx", "sumx", "sum", "fro", "eq", "argmax", "argmax", "det", "det",
                       "adj", "inv", "inv", "vdiff", "vpeq", "vfro", "vdot", "vmat", "vtimes", "zscore"])
        small = lambda n, lo=-4, hi=4: [r.randint(lo, hi) for _ in range(n)]
        if op in ("clone", "copy"):
            push(op, a, b, a=a, b=b)
            reg[a] = reg[b]
        elif op == "setrow":
            v, row = small(C), r.randrange(R)
            push(op, a, row, *v, a=a, r=row + 1, v=v)
            reg[a] = (R, C, max(bd, 4), False)
        elif op in ("put", "bump"):
            x, y, v = r.randrange(R), r.randrange(C), small(1)
            push(op, a, x, y, *v, a=a, r=x + 1, k=y + 1, v=v)
            reg[a] = (R, C, bd + 4, False)
        elif op == "zero":
            push(op, a, a=a)
            reg[a] = (R, C, 0, True)
        elif op == "mul":
            c = [x for x in have if reg[x][0] == reg[b][1]]
            if not c:
                continue
            c = r.choice(c)
            nb = reg[b][2] * reg[c][2] * reg[b][1]
            if nb > 20000:
                continue
            push(op, a, b, c, a=a, b=b, c=c)
            reg[a] = (reg[b][0], reg[c][1], nb, False)
        elif op in ("add", "sub"):
            c = r.choice(same)
            nb = reg[b][2] + reg[c][2]
            if nb > 20000:
                continue
            push(op, a, b, c, a=a, b=b, c=c)
            reg[a] = (*reg[b][:2], nb, reg[b][3] and reg[c][3])
        elif op == "pluseq":
            c = [x for x in have if reg[x][:2] == (R, C)]
            b = r.choice(c)
            if bd + reg[b][2] > 20000:
                continue
            push(op, a, b, a=a, b=b)
            reg[a] = (R, C, bd + reg[b][2], div and reg[b][3])
        elif op == "subv":
            if reg[b][0] != reg[b][1] or reg[b][2] > 20000:
                continue
            v = small(reg[b][0])
            push(op, a, b, *v, a=a, b=b, v=v)
            reg[a] = (*reg[b][:2], reg[b][2] + 4, False)
        elif op in ("divs", "divv", "diveq", "divpow"):
            if not div:
                continue
            dv = lambda n: [r.choice([1, 2, 3, 4, 6, 12, -1, -2, -12]) for _ in range(n)]
            if op == "divs":
                v = dv(1)
                push(op, a, *v, a=a, v=v)
            elif op == "divv":
                v = dv(r.choice([R, C, C]) if r.random() < 0.95 else R + C)
                push(op, a, *v, a=a, v=v)
                if R == C or len(v) not in (R, C):
                    continue
            else:
                ax = r.choice([0, 1])
                n = (C if ax == 0 else R) if r.random() < 0.93 else (R if ax == 0 else C)
                v = dv(n)
                if op == "diveq":
                    push(op, a, ax, *v, a=a, r=ax, v=v)
                else:
                    if bd > 72:
                        continue
                    e = r.choice([1, 2, 2, 3])
                    push(op, a, ax, e, *v, a=a, r=ax, k=e, v=v)
                    bd = bd ** e
                if n != (C if ax == 0 else R):
                    continue
            reg[a] = (R, C, bd, False)
        elif op == "pow":
            e = r.choice([1, 2, 3])
            if bd ** e > 20000:
                continue
            push(op, a, e, a=a, v=[e])
            reg[a] = (R, C, bd ** e, div)
        elif op in ("mean", "sumx"):
            if bd * max(R, C) > 100000:
                continue
            ax = r.choice([0, 1]) if op == "mean" or r.random() < 0.95 else 2
            push(op, a, ax, r.choice([0, 2, 7]), a=a, r=ax)
        elif op == "argmax":
            ax = r.choice([0, 1]) if r.random() < 0.95 else 2
            push(op, a, ax, r.choice([0, 2]), a=a, r=ax)
        elif op == "sum":
            if bd * R * C <= 500000:
                push(op, a, a=a)
        elif op == "fro":
            if bd * bd * R * C <= 10 ** 8:
                push(op, a, a=a)
        elif op == "eq":
            push(op, a, b, a=a, b=b)
        elif op in ("det", "inv", "adj"):
            a2 = b if op == "adj" else a
            R2, C2, b2, _ = reg[a2]
            if R2 != C2 or math.factorial(R2) * max(1, b2) ** R2 > 500000:
                continue
            if op == "adj":
                push(op, a, b, a=a, b=b)
                reg[a] = (R2, C2, math.factorial(R2 - 1) * max(1, b2) ** (R2 - 1), False)
            else:
                push(op, a, a=a)
        elif op in ("vdiff", "vpeq", "vdot"):
            v = small(2 * r.randint(1, 6), -9, 9)
            w = [r.choice([0, 1])] if op == "vdiff" else []
            push(op, 0, *w, *v, v=v)
        elif op == "vfro":
            v = small(r.randint(1, 6), -9, 9)
            push(op, 0, *v, v=v)
        elif op == "vmat":
            if bd * 4 * R > 500000:
                continue
            v = small(R)
            push(op, a, *v, a=a, v=v)
        elif op == "vtimes":
            v, x = small(r.randint(1, 6)), r.randint(-5, 5)
            push(op, 0, x, r.choice([0, 1]), *v, r=x, v=v)
        elif op == "zscore":
            m = r.choice([1, 3, 40])
            v = small(r.randint(2, 8), -m, m)
            push(op, 0, r.choice([1, 2, 4, 8]), *v, v=v)
    return dict(id=f"l{i}", ops=ops)


def c24(ctx):
    for n, lo, hi, bug, exp in ([(1, 2, 2, "none", None), (2, 2, 2, "none", None), (3, 0, ctx.pick(1, 2), "none", None), (2, 1, 1, "sign", "is violated"),
                                 (3, 0, 1, "stride", "is violated"), (2, 1, 1, "notrans", "is violated"), (2, 1, 1, "adjsign", "is violated")]
                                + ([(3, 1, 1, "none", None), (3, 1, 2, "none", None), (4, 0, 1, "none", None)] if ctx.thorough else [])):
        ctx.bg(ctx.model, "MCMatrix", f"SPECIFICATION Spec\nINVARIANTS DetOk AdjOk\nCHECK_DEADLOCK FALSE\nCONSTANTS N={n} Lo={lo} Hi={hi} Bug=\"{bug}\"\n",
               f"determinant and adjugate of all {n}x{n} matrices over {-lo}..{hi}, variant {bug}", expect=exp, timeout=3000, heap="6g")
    exe = objdrv()
    r = ctx.rnd
    jobs = [mat_job(r, i) for i in range(ctx.pick(4000, 60000))]
    jobs = [j for j in jobs if j["ops"]]

    def run(js):
        res = run_lines(exe, [(j["id"], mat_line(j)) for j in js], env=ASAN)
        return [(j, mat_trace(j, res[j["id"]])) for j in js if j["id"] in res]
    ctx.traces("MatrixTrace", run(jobs), label="matrix operation sequences", canary=corrupt_mat, rerun=lambda j: run([j])[0][1], tries=2)
    ops = {}
    for j in jobs:
        for o in j["ops"]:
            ops[o["op"]] = ops.get(o["op"], 0) + 1
    return "model_checking", {"operations_replayed": ops}


CHECKS = {"C08": c08, "C19": c19, "C20": c20, "C23": c23, "C24": c24}
