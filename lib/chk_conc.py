"""C07 (hand-over) and C22 (repeatability)."""
import core, conc, gen
from conc import handover_runs, handover_trace, result_of

PH = ["EM", "KMSPP", "MB", "TEST"]


def model_handover(ctx):
    def one(nw, np, bug, expect=None, **kw):
        ctx.bg(ctx.model, "Handover",
               f"SPECIFICATION Spec\nINVARIANTS Once Complete NotEarly NoStray PendingOk\nPROPERTIES AllExit Refines\n"
               f"CONSTANTS NW={nw} NP={np} Bug=\"{bug}\"\n",
               f"hand-over with {nw} workers, {np} phases, variant {bug}", expect=expect, workers=3, timeout=3000, **kw)
    one(2, 2, "none")
    for bug in ("unlocked", "polled", "pendinglate", "ifwait"):
        one(2, 2, bug, "Error:")
    if ctx.thorough:
        one(3, 2, "none", heap="8g")
        one(2, 4, "none", heap="8g")


def ho_jobs(ctx, n, tag=""):
    r = ctx.rnd
    out = []
    for i in range(n):
        kind = ["task", "plain"][i % 2]
        T = r.choice([1, 2, 2, 3, 3, 4, 5])
        phases = [r.choice(PH if kind == "task" else ["EM", "KMSPP", "MB"]) for _ in range(r.choice([1, 2, 3, 4, 6]))]
        out.append(dict(id=f"{tag}{i}", kind=kind, T=T, rows=r.randint(T, T + 6), seed=r.randrange(1, 2 ** 31),
                        pol=r.choice([0, 0, 1]), prob=r.choice([10, 30, 100, 300, 700]), spur=r.random() < 0.35,
                        phases=phases))
    return out


def corrupt_ho(ev, rnd):
    idx = [i for i, e in enumerate(ev) if e["e"] in ("Start", "End", "Returned")]
    if not idx:
        return None
    del ev[rnd.choice(idx)]
    return ev


SCHED_ENGINES = ["full", "prune", "mb", "skm", "med", "fcm", "hcl", "xm", "gm"]


def engine_job(r, jid, engine, n=None, style=None):
    """A configuration of any engine within what it accepts."""
    d = r.choice([1, 2, 3])
    n = n or r.randint(6, 30)
    k = r.randint(2, min(5, n))
    data = gen.points(r, n, d, style or r.choice(["wide", "blobs", "blobs", "tiny", "line"]))
    inits = {"full": gen.INITS, "prune": gen.INITS + ["kmeanspp"], "auto": gen.INITS, "autop": gen.INITS,
             "mb": gen.INITS, "skm": gen.INITS, "med": ["forgy"], "fcm": ["none", "forgy"], "hcl": ["forgy"],
             "xm": ["forgy"], "gm": ["forgy"], "kpp": ["kmeanspp"]}[engine]
    init = r.choice(inits)
    dist = "taxi" if engine == "med" else "eucl"
    j = dict(id=str(jid), engine=engine, n=n, d=d, k=k, T=r.choice([1, 2, 3, 4]), maxit=r.choice([1, 2, 3, 6, 12]),
             init=init, tol=r.choice([-1, -1, 0.1]), dist=dist, data=data, scale=gen.scale(r, [1, 4, 10, 7]), x={})
    if init == "none":
        j["centers"] = gen.start_centers(r, data, k, d)
    if engine == "mb":
        j["x"] = {"mb": r.randint(1, n)}
    if engine == "med":
        j["x"] = {"rate": r.choice([0.2, 0.5, 1.0])}
    if engine == "fcm":
        j["x"] = {"fuzz": r.choice([2, 3])}
    if engine in ("hcl", "xm", "gm"):
        j["x"] = {"min": 2, "strict": r.choice([1, 2, 3, 4])}
        j["k"] = r.choice([2, 3, 4, 6, 8])
    if engine == "kpp":
        j["x"] = {"starts": r.randint(1, 6)}
    return j


def repeat_items(exes, jobs, plans):
    """plans(job) -> list of (how, exe key, changed job fields, process group)."""
    want = {}
    for j in jobs:
        for q, (how, key, ch, grp) in enumerate(plans(j)):
            jj = dict(j, **{k: v for k, v in ch.items() if k != "x"})
            jj["x"] = dict(j.get("x", {}), **ch.get("x", {}))
            jj["id"] = f"{j['id']}.{q}"
            want.setdefault((key, grp), []).append((j, how, jj))
    got = {}
    for (key, grp), lst in want.items():
        recs = core.run_jobs(exes[key], [x[2] for x in lst], timeout=25)
        for j, how, jj in lst:
            got.setdefault(j["id"], []).append((how, recs[jj["id"]]))
    out = []
    for j in jobs:
        ev = [{"e": "Begin"}]
        for how, rec in got[j["id"]]:
            ev.append({"e": "Run", "c": "cfg", "how": how, "kept": rec["kept"] or j["engine"] == "skm",
                       "r": result_of(rec)})
        out.append((j, ev))
    return out


def corrupt_rep(ev, rnd):
    e = rnd.choice(ev[2:])
    how = rnd.choice(["kept", "iters", "labels", "centres"])
    if how == "kept":
        e["kept"] = False
    else:
        e["r"][how] = 999999 if how == "iters" else "x"
    return ev


def sched_x(r):
    return {"seed": r.randrange(1, 2 ** 31), "pol": r.choice([0, 0, 1]), "prob": r.choice([2, 10, 50, 200]),
            "spur": int(r.random() < 0.3)}


def c07(ctx):
    model_handover(ctx)
    jobs, uniq = [], []
    try:
        exe = conc.build("handover", ["handover.cpp"])
    except core.CheckError as e:
        # the probe classes do not fit this tree: only the engines are run
        core.log(f"[C07] probe workers do not build: {str(e)[-600:]}")
        ctx.notes.append("the probe workers did not build against this tree; only the engines were judged")
        exe = None
    if exe:
        jobs = ho_jobs(ctx, ctx.pick(12000, 400000))
        seen = set()
        step = 40000
        for a in range(0, len(jobs), step):
            part = jobs[a:a + step]
            res = handover_runs(exe, part)
            for j in part:
                if j["id"] not in res:
                    continue        # not reached after too many failures in its chunk
                tr = handover_trace(j, res[j["id"]])
                key = repr(tr)
                if key not in seen:
                    seen.add(key)
                    uniq.append((j, tr))
        ctx.notes.append(f"{len(jobs)} schedules of probe workers, {len(uniq)} distinct behaviours")
        ctx.traces("HandoverTrace", uniq, label="probe workers under chosen schedules", canary=corrupt_ho,
                   rerun=lambda j: handover_trace(j, handover_runs(exe, [j])[j["id"]]))
    # the engines themselves: no schedule may hang, crash or misuse a mutex
    sexe = conc.build("kmdrv_sched", ["kmdrv.cpp"], ("-DSCHED",))
    n = ctx.pick(1500 if exe else 5000, 30000)
    js = []
    for i in range(n):
        j = engine_job(ctx.rnd, f"e{i}", SCHED_ENGINES[i % 6], n=ctx.rnd.randint(6, 12))
        j["maxit"] = min(j["maxit"], 4)
        j["x"] = dict(j["x"], **sched_x(ctx.rnd))
        js.append(j)

    def run(js):
        recs = core.run_jobs(sexe, js, timeout=60)
        out = []
        for j in js:
            st = recs[j["id"]]["status"]
            ev = [{"e": "Begin", "nw": j["T"], "rows": 0, "tasks": False}]
            if st == "hang":
                ev.append({"e": "Hang", "threads": j["engine"]})
            elif st.startswith("crash"):
                ev.append({"e": "Crash", "info": st})
            else:
                ev += [{"e": "Destroy"}, {"e": "Done", "misuse": st[7:] if st.startswith("misuse:") else "-"}]
            out.append((j, ev))
        return out
    ctx.traces("HandoverTrace", run(js), label="engines under chosen schedules", rerun=lambda j: run([j])[0][1])
    return "model_checking", {"schedules": len(jobs), "distinct_behaviours": len(uniq), "engine_schedules": n}


def c22(ctx):
    for bug, exp in (("none", None), ("racy", "Function is violated")):
        ctx.bg(ctx.model, "MCRepeat", f"SPECIFICATION Spec\nINVARIANTS Function Kept\nCONSTANT Bug=\"{bug}\"\nCHECK_DEADLOCK FALSE\n",
               f"runs as a function of the configuration, variant {bug}", expect=exp)
    exes = {"std": core.build_exe("kmdrv", ["kmdrv.cpp"]), "sched": conc.build("kmdrv_sched", ["kmdrv.cpp"], ("-DSCHED",))}
    r = ctx.rnd
    ENG = ["full", "prune", "prune", "mb", "auto", "autop", "skm", "med", "fcm", "hcl", "xm", "gm", "kpp"]
    jobs = [engine_job(r, f"j{i}", ENG[i % len(ENG)]) for i in range(ctx.pick(2600, 30000))]

    def plans(j):
        p = [("first", "std", {}, 0), ("again in the same process", "std", {}, 0), ("new process", "std", {}, 1)]
        return p
    items = repeat_items(exes, jobs, plans)
    ctx.traces("RepeatTrace", items, label="repeated real runs", canary=corrupt_rep,
               rerun=lambda j: repeat_items(exes, [j], plans)[0][1])
    # chosen schedules against each other and against a free run (same machine code in both)
    sj = []
    for i in range(ctx.pick(500, 6000)):
        j = engine_job(r, f"s{i}", SCHED_ENGINES[i % 9], n=r.randint(6, 14))
        j["maxit"] = min(j["maxit"], 4)
        sj.append(dict(j, plan=[sched_x(r) for _ in range(ctx.pick(3, 6))]))

    def splans(j):
        return [("free", "sched", {}, 0)] + [(f"schedule {x['seed']}", "sched", {"x": x}, 0) for x in j["plan"]]
    items = repeat_items(exes, sj, splans)
    ctx.traces("RepeatTrace", items, label="chosen schedules",
               rerun=lambda j: repeat_items(exes, [j], splans)[0][1])
    # many rows: several tasks per thread, real parallelism
    big = [gen.big_job(r, f"b{i}", ["full", "prune", "auto", "autop"][i % 4]) for i in range(ctx.pick(16, 160))]
    for j in big:
        j["maxit"] = r.choice([2, 4, 8])
        if r.random() < 0.5:
            j.update(init="kmeanspp", centers=[])
        if r.random() < 0.3 and j["engine"] == "prune":
            j.update(engine="mb", x={"mb": 500})
    items = repeat_items(exes, big, plans)
    ctx.traces("RepeatTrace", items, label="many rows", rerun=lambda j: repeat_items(exes, [j], plans)[0][1])
    return "model_checking", {"schedules_per_configuration": ctx.pick(3, 6)}


CHECKS = {"C07": c07, "C22": c22}
