"""C04 distributed k-means."""
import core, gen

MPIENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
          "OMPI_MCA_plm": "isolated", "OMPI_MCA_btl": "self,vader", "OMPI_MCA_pml": "ob1",
          "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_mpi_yield_when_idle": "1",
          "OMPI_MCA_orte_tmpdir_base": "@WD@", "TMPDIR": "@WD@"}       # launches that share one trip over each other


def mpirun(np):
    return ["mpirun.openmpi", "--oversubscribe", "--bind-to", "none", "-n", str(np)]


def distdrv():
    exe = core.build_exe("distdrv", ["distdrv.cpp"], libs=("libkcommon", "libman", "libdist"), cxx="mpicxx.openmpi",
                         link=("-lnuma", "-lpthread", "-lrt", "-lmpi_cxx", "-lmpi"))
    return exe


def runner(exe, single=None):
    """The jobs of one process count share a launch.  Open MPI is used because the
    installed MPICH library and launcher speak different protocols: each process of
    'mpirun.mpich -n P' believes it is alone."""
    def run(_, jobs, timeout=30, env=None, **kw):
        env = dict(MPIENV, **(env or {}))
        res = {}
        for np in sorted({j["np"] for j in jobs}):
            js = [j for j in jobs if j["np"] == np]
            if np == 0:                       # the single-process engines
                res.update(core.run_jobs(single, js, timeout=timeout))
                continue
            res.update(core.run_jobs(mpirun(np) + [exe], js, timeout=timeout, env=env,
                                     chunks=max(1, min(len(js), 10 // np))))
        return res
    return run


def layout(r, j, nmin):
    np = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
    while np > nmin:
        np -= 1
    j["np"] = np
    j["x"] = {"delay": r.choice([0, 0, 0, 40, 300]), "dseed": r.randint(1, 9999)}
    return j


def dist_job(r, jid, **kw):
    j = gen.exact_job(r, jid, r.choice(["dist", "distp"]), T=r.choice([1, 1, 2, 3, 4]), nmax=40, place="file", **kw)
    return layout(r, j, j["n"])


def model_dist(ctx):
    def one(np, n, k, r, limit, delta, tol=(0, 1), bug="none", expect=None, **kw):
        ctx.bg(ctx.model, "MCDist",
               "SPECIFICATION MCSpec\nINVARIANTS LloydPasses Agreement ResultRight RootIsKMeans\nPROPERTIES Ends\n"
               f'CONSTANTS NP={np} Delta={delta} Bug="{bug}" NR={n} K={k} R={r} Limit={limit} TolN={tol[0]} TolD={tol[1]}\n',
               f"{np} processes, {n} rows, k={k}, 0..{r}, {limit} passes, delta={delta}, variant {bug}",
               expect=expect, workers=2, timeout=3000, **kw)
    one(2, 3, 2, 2, 2, "TRUE")
    one(2, 3, 2, 1, 3, "FALSE", tol=(1, 3))
    one(3, 3, 2, 1, 2, "FALSE")
    one(2, 3, 2, 2, 3, "TRUE", bug="prevtwice", expect="Agreement is violated")
    one(2, 3, 2, 2, 3, "FALSE", bug="localstop", expect="Deadlock reached")
    one(2, 3, 2, 2, 3, "FALSE", bug="tail", expect="ResultRight is violated")
    if ctx.thorough:
        one(3, 4, 2, 2, 3, "TRUE")
        one(2, 3, 2, 2, 3, "TRUE")
        one(3, 5, 2, 1, 3, "FALSE", tol=(1, 4))
        one(2, 4, 3, 2, 3, "TRUE")
        one(4, 4, 2, 2, 2, "FALSE")


def c04(ctx):
    import checks
    model_dist(ctx)
    exe = distdrv()
    run = runner(exe, checks.kmdrv())

    def variants(j):
        """Another layout, whichever engine; and one process (its random partition is drawn otherwise)."""
        r = __import__("random").Random(j["id"])
        v = layout(r, {}, j["n"])
        out = []
        for e, t in [(r.choice(["dist", "distp"]), r.choice([1, 2, 3]))]:
            out.append((f"{e} on {v['np']} processes with {t} threads", dict(v, engine=e, T=t)))
        if j["init"] != "random":
            out.append(("one process", dict(engine=r.choice(["full", "prune"]), T=r.choice([1, 2, 4]), np=0)))
        return out
    inst = checks.tlc_instances(ctx)
    small = checks.small_scope_jobs(ctx, ["dist", "distp"], inst, ctx.pick(0.15, 1))
    checks.km_traces(ctx, exe, [layout(ctx.rnd, j, 4) for j in small], "TLC-enumerated instances", run=run)
    jobs = [dist_job(ctx.rnd, i) for i in range(ctx.pick(700, 9000))]
    checks.km_traces(ctx, exe, jobs, "generated instances", run=run, variants=variants)
    jobs = [layout(ctx.rnd, dict(gen.big_job(ctx.rnd, f"b{i}", ["dist", "distp"][i % 2]), place="file"), 100)
            for i in range(ctx.pick(6, 60))]
    checks.km_traces(ctx, exe, jobs, "large row counts", run=run)
    jobs = [gen.wide_job(ctx.rnd, f"w{i}", ["dist", "distp"][i % 2], place="file") for i in range(ctx.pick(30, 600))]
    checks.km_traces(ctx, exe, [layout(ctx.rnd, dict(j, T=min(j["T"], 5)), j["n"]) for j in jobs], "many features, centres or rows",
                     run=run, maxchain=5)
    return "model_checking", {}


CHECKS = {"C04": c04}
