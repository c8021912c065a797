"""Build, run and judge: shared plumbing of the checks (no property logic here)."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# OpenMP threads that wait must not spin: the drivers run side by side
os.environ["OMP_WAIT_POLICY"] = "passive"
os.environ["GOMP_SPINCOUNT"] = "0"
REPO = os.environ.get("KNOR_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARN = os.path.join(VERIF, "harness")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The machinery itself failed (not a verdict)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- scratch
_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None:
        base = os.environ.get("KNOR_SCRATCH")
        if base:
            os.makedirs(base, exist_ok=True)
            _SCRATCH = base
        else:
            _SCRATCH = tempfile.mkdtemp(prefix="knorv.")
    return _SCRATCH


def cleanup():
    if _SCRATCH and not os.environ.get("KNOR_SCRATCH"):
        shutil.rmtree(_SCRATCH, ignore_errors=True)


# ---------------------------------------------------------------- building
BASEFLAGS = ["-std=c++11", "-O1", "-w", "-fPIC", "-DSTATISTICS", "-fopenmp", "-DUSE_NUMA"] + os.environ.get("KNOR_XFLAGS", "").split()
INC = ["-I", REPO, "-I", f"{REPO}/libkcommon", "-I", f"{REPO}/libman", "-I", f"{REPO}/libauto",
       "-I", f"{REPO}/libdist", "-I", HARN]


def _srcs(dirs):
    out = []
    for d in dirs:
        p = os.path.join(REPO, d)
        out += sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".cpp"))
    return out


def _compile(args):
    cxx, flags, src, obj = args
    r = subprocess.run([cxx] + flags + INC + ["-c", src, "-o", obj], capture_output=True, text=True)
    return src, r.returncode, r.stderr


_OBJS = {}


def build_objs(dirs, variant="std", cxx="g++", extra=()):
    """Compile every .cpp of the given /repo directories; returns the object list."""
    out = []
    todo = []
    for d in dirs:
        for s in _srcs([d]):
            key = (variant, s)
            if key not in _OBJS:
                bd = os.path.join(scratch(), "obj", variant)
                os.makedirs(bd, exist_ok=True)
                o = os.path.join(bd, s[len(REPO):].strip("/").replace("/", "_") + ".o")
                _OBJS[key] = o
                cc = "mpicxx.openmpi" if d == "libdist" else cxx
                todo.append((cc, BASEFLAGS + list(extra), s, o))
            out.append(_OBJS[key])
    if todo:
        with ThreadPoolExecutor(NCPU) as ex:
            for src, rc, err in ex.map(_compile, todo):
                if rc:
                    raise CheckError(f"compile failed: {src}\n{err[-3000:]}")
    return out


LIBS = {
    "std": ["libkcommon", "libauto", "libman"],
    "dist": ["libkcommon", "libman", "libdist"],
}


def build_exe(name, sources, libs=("libkcommon", "libauto", "libman"), cxx="g++", variant="std",
              extra=(), link=("-lnuma", "-lpthread", "-lrt"), libobjs=True):
    """Build a harness executable from /repo's current sources."""
    exe = os.path.join(scratch(), "bin", name)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    todo = []
    bd = os.path.join(scratch(), "obj", variant)
    os.makedirs(bd, exist_ok=True)
    hobjs = []
    for s in sources:
        src = s if os.path.isabs(s) else os.path.join(HARN, s)
        o = os.path.join(bd, f"h_{name}_{os.path.basename(src)}.o")
        hobjs.append(o)
        todo.append((cxx, BASEFLAGS + list(extra), src, o))
    with ThreadPoolExecutor(NCPU) as ex:
        fut = [ex.submit(_compile, t) for t in todo]
        objs = build_objs(libs, variant, "g++", extra) if libobjs else []
        for f in fut:
            src, rc, err = f.result()
            if rc:
                raise CheckError(f"compile failed: {src}\n{err[-3000:]}")
    r = subprocess.run([cxx, "-fopenmp"] + os.environ.get("KNOR_XFLAGS", "").split() + list(extra) + ["-o", exe] + hobjs + objs + list(link),
                       capture_output=True, text=True)
    if r.returncode:
        raise CheckError(f"link failed: {name}\n{r.stderr[-3000:]}")
    return exe


# ---------------------------------------------------------------- kmdrv jobs
def fmt(v):
    return repr(float(v)) if isinstance(v, float) else str(v)


def job_text(j):
    p = ["JOB", j["id"], j["engine"], j["n"], j["d"], j["k"], j["maxit"], j["T"], j.get("nn", 1),
         j["init"], j.get("dist", "eucl"), fmt(j.get("tol", -1)), j.get("place", "mem")]
    for kx, vx in j.get("x", {}).items():
        p.append(f"{kx}={fmt(vx)}")
    p.append("DATA")
    sc, off = j.get("scale", 1), j.get("off", 0)

    def val(v, sc=j.get("inscale", sc)):
        return str(v + off) if sc == 1 else repr(v / sc + off)
    if "rep" in j:            # distinct points + row -> point indices
        p += ["REP", len(j["pts"])]
        p += [val(v) for r in j["pts"] for v in r]
        p += j["rep"]
    else:
        p += ["FULL"] + [val(v) for r in j["data"] for v in r]
    cen = j.get("centers") or []
    p += ["CENTERS", sum(len(r) for r in cen)] + [val(v, sc) for r in cen for v in r]
    return " ".join(map(str, p))


def _parse_record(toks):
    it = iter(toks)
    nx = lambda: next(it)
    rec = {"id": nx(), "status": nx(), "nrow": int(nx()), "ncol": int(nx()), "iters": int(nx()),
           "k": int(nx())}
    rec["counts"] = [int(nx()) for _ in range(int(nx()))]
    rec["assign"] = [int(nx()) for _ in range(int(nx()))]
    rec["cent"] = [float(nx()) for _ in range(int(nx()))]
    rec["extra"] = [float(nx()) for _ in range(int(nx()))]
    rec["kept"] = nx() == "1"
    return rec


def _run_chunk(args):
    exe, jobs, tag, timeout, env = args
    wd = os.path.join(scratch(), "run", tag)
    os.makedirs(wd, exist_ok=True)
    recs = {}
    todo = list(jobs)
    part = 0
    died = []
    while todo:
        jf, of = os.path.join(wd, f"jobs{part}.txt"), os.path.join(wd, f"out{part}.txt")
        with open(jf, "w") as f:
            for j in todo:
                f.write(job_text(j) + "\n")
        e = dict(os.environ)
        e.setdefault("OMP_WAIT_POLICY", "passive")   # no spinning when oversubscribed
        e.setdefault("GOMP_SPINCOUNT", "0")
        e.update({a: b.replace("@WD@", wd) for a, b in (env or {}).items()})
        p = subprocess.Popen((exe if isinstance(exe, list) else [exe]) + [jf, of, wd], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                             env=e, start_new_session=True)
        hung = False
        deadline = None
        cur, seen = None, 0
        import threading
        errbuf = []
        th = threading.Thread(target=lambda: errbuf.append(p.stderr.read()), daemon=True)
        th.start()
        last_sz, last_t = -1, time.time()
        while True:
            try:
                p.wait(0.05)
                break
            except subprocess.TimeoutExpired:
                sz = os.path.getsize(of) if os.path.exists(of) else 0
                if sz != last_sz:
                    last_sz, last_t = sz, time.time()
                elif time.time() - last_t > timeout:
                    hung = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
        th.join(2)
        err = (errbuf[0] if errbuf else b"").decode(errors="replace")
        started, done, fin = None, set(), False
        if os.path.exists(of):
            for line in open(of):
                if not line.endswith("\n"):
                    continue
                t = line.split()
                if not t:
                    continue
                if t[0] == "S":
                    started = t[1]
                elif t[0] == "R":
                    rec = _parse_record(t[1:])
                    recs[rec["id"]] = rec
                    done.add(rec["id"])
                elif t[0] == "E":
                    fin = True
        if fin and not hung:
            break
        DEAD[0] += 1 if not (hung or p.returncode == 42) else 8
        if started is None or started in done:
            # died between jobs: attribute to the next one
            rest = [j for j in todo if j["id"] not in done]
            if not rest:
                break
            started = rest[0]["id"]
        recs[started] = {"id": started, "status": "hang" if hung or p.returncode == 42 else f"crash:{p.returncode}",
                         "kept": True,
                         "err": err[-600:], "nrow": 0, "ncol": 0, "iters": 0, "k": 0, "counts": [],
                         "assign": [], "cent": [], "extra": []}
        died.append(next(j for j in jobs if j["id"] == started))
        done.add(started)
        todo = [j for j in todo if j["id"] not in done]
        part += 1
        if DEAD[0] > DEAD_LIMIT[0] and todo:
            shutil.rmtree(wd, ignore_errors=True)
            raise Dead(exe, died, timeout, env)
    shutil.rmtree(wd, ignore_errors=True)
    return recs


_RUNNO = [0]
DEAD = [0]
DEAD_LIMIT = [64]


class Dead(Exception):
    """Run after run crashed or did not end: going on would only take long."""
    def __init__(self, exe, jobs, timeout, env):
        super().__init__(f"{len(jobs)} runs died")
        self.exe, self.jobs, self.timeout, self.env = exe, jobs, timeout, env


def dead_again(d):
    """Re-run the jobs that died, each alone; returns (job, record) of one that dies again."""
    for j in d.jobs[:4]:
        for _ in range(2):
            r = _run_chunk((d.exe, [j], "dead", d.timeout, d.env))[j["id"]]
            if r["status"] == "hang" or r["status"].startswith("crash"):
                return j, r
    return None


def run_jobs(exe, jobs, timeout=20, chunks=None, env=None):
    """Run jobs (crash and hang isolated); returns id -> record."""
    _RUNNO[0] += 1
    chunks = chunks or min(NCPU, max(1, len(jobs) // 4))
    parts = [[] for _ in range(chunks)]
    for i, j in enumerate(jobs):
        parts[i % chunks].append(j)
    res = {}
    DEAD[0] = 0
    with ThreadPoolExecutor(chunks) as ex:
        for r in ex.map(_run_chunk, [(exe, p, f"r{_RUNNO[0]}_{i}", timeout, env)
                                     for i, p in enumerate(parts) if p]):
            res.update(r)
    return res


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, workdir=None, workers=1, env=None, timeout=600, heap="2g", extra=(), copy=()):
    """Run TLC on specs/<module>.tla with the given cfg text. Returns dict."""
    wd = workdir or tempfile.mkdtemp(prefix="tlc.", dir=scratch())
    os.makedirs(wd, exist_ok=True)
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            dst = os.path.join(wd, f)
            if not os.path.exists(dst):
                shutil.copy(os.path.join(SPECS, f), dst)
    cfgp = os.path.join(wd, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    cm = "/opt/veriftools/tla/CommunityModules-deps.jar"
    cp = [TLAJAR] + [os.path.join("/opt/veriftools/tla", x) for x in os.listdir("/opt/veriftools/tla")
                     if x.endswith(".jar") and x != "tla2tools.jar"]
    cmd = ["java", f"-Djava.io.tmpdir={wd}", f"-Xmx{heap}", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           "-Xss16m", "-XX:TieredStopAtLevel=4",
           "-cp", ":".join(cp), "tlc2.TLC", "-workers", str(workers), "-metadir",
           os.path.join(wd, "states"), "-noGenerateSpecTE", "-config", cfgp] + list(extra) + \
          [os.path.join(wd, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    t0 = time.time()
    if _STOPPED:
        raise CheckError("stopped")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=wd)
    _TLCS.add(p)
    try:
        out, rc = p.communicate(timeout=timeout)[0], p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        out, rc = p.communicate()[0], -9
    finally:
        _TLCS.discard(p)
    res = {"rc": rc, "out": out, "wall": time.time() - t0, "wd": wd}
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    res["generated"], res["distinct"] = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    res["ok"] = rc == 0 and "No error has been found" in out
    return res


_TLCS, _STOPPED = set(), []


def stop_tlc():
    """End what still runs in the background."""
    _STOPPED.append(1)
    for p in list(_TLCS):
        p.kill()


def tlc_ok(res, what):
    if not res["ok"]:
        raise CheckError(f"TLC failed on {what} rc={res['rc']}\n{res['out'][-3000:]}")
    return res


def trace_check(module, traces, consts="", nproc=None, timeout=800, per=None, heap="3g"):
    """Validate traces (each a list of JSON-able events, first one type Begin) against a trace spec.

    Every trace module reads trace.ndjson: one event per line, and prints
    <<"REJECT", tid, line, why>> for a trace whose events it cannot follow, then
    skips to the next trace.  It prints <<"DONE", lines>> once all lines are consumed.
    Returns (rejects, stats).
    """
    if not traces:
        return [], {"states": 0, "transitions": 0, "wall": 0.0, "traces": 0, "events": 0}
    nproc = nproc or NCPU
    # balance by total events size
    order = sorted(range(len(traces)), key=lambda i: -sum(len(json.dumps(e)) for e in traces[i]))
    n = min(nproc, len(traces))
    bins, load = [[] for _ in range(n)], [0] * n
    for i in order:
        b = load.index(min(load))
        bins[b].append(i)
        load[b] += sum(len(json.dumps(e)) for e in traces[i]) + 50

    def one(idx):
        wd = tempfile.mkdtemp(prefix="trc.", dir=scratch())
        lines = 0
        with open(os.path.join(wd, "trace.ndjson"), "w") as f:
            for i in idx:
                for e in traces[i]:
                    e = dict(e)
                    e["tid"] = i
                    f.write(json.dumps(e) + "\n")
                    lines += 1
        cfg = f"SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n{consts}\n"
        r = tlc(module, cfg, workdir=wd, timeout=timeout, heap=heap)
        shutil.rmtree(wd, ignore_errors=True)
        r["lines"] = lines
        if r["ok"] and f'<<"DONE", {lines}>>' in r["out"]:
            return [r]
        if r["rc"] in (-9, 137) or "OutOfMemory" in r["out"] or "Parsing or semantic" in r["out"]:
            raise CheckError(f"TLC failed on {module}: rc={r['rc']}\n{r['out'][-3000:]}")
        # The specification cannot be evaluated on some trace: find it.
        if len(idx) == 1:
            r["ok"] = True
            m = re.search(r"(?:Error: |exception was.*?: )(.*)", r["out"])
            log(f"{module}: trace {idx[0]} cannot be evaluated: {r['out'][-700:]}")
            r["out"] = f'<<"REJECT", {idx[0]}, 0, "outside-the-specification">>'
            return [r]
        h = len(idx) // 2
        return one(idx[:h]) + one(idx[h:])
    rejects, st, tr, wall, ev, skips, counts = [], 0, 0, 0.0, 0, {}, {}
    with ThreadPoolExecutor(n) as ex:
        for r in [x for rs in ex.map(one, bins) for x in rs]:
            for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*(?:,\s*(.*?))?>>', r["out"], re.S):
                rejects.append({"tid": int(m.group(1)), "line": int(m.group(2)), "why": m.group(3),
                                "info": re.sub(r"\s+", " ", m.group(4) or "")[:400]})
            for why in re.findall(r'<<"SKIPPED",\s*\d+,\s*"([^"]*)"', r["out"]):
                skips[why] = skips.get(why, 0) + 1
            for what in re.findall(r'<<"COUNT",\s*"([^"]*)"', r["out"]):
                counts[what] = counts.get(what, 0) + 1
            st += r["distinct"]
            tr += r["generated"]
            wall = max(wall, r["wall"])
            ev += r["lines"]
    return rejects, {"states": st, "transitions": tr, "wall": wall, "traces": len(traces), "events": ev, "skips": skips, "counts": counts}


# ------------------------------------------------------------ line drivers
def run_lines(exe, lines, args=(), timeout=25, chunks=None, env=None, maxfail=200):
    """lines: [(id, text)] fed on stdin; the driver prints 'S id', 'V id tokens', 'E id' to its first
    argument.  Crash- and hang-isolated.  Returns id -> (list of token lists, failure or None)."""
    n = chunks or NCPU
    _RUNNO[0] += 1
    tag = f"ln{os.getpid()}_{_RUNNO[0]}"

    def chunk(a):
        no, todo = a
        res, fails = {}, 0
        of = os.path.join(scratch(), f"{tag}_{no}.txt")
        ef = of + ".err"
        while todo:
            if os.path.exists(of):           # what an earlier process wrote has been read
                os.remove(of)
            with open(ef, "w") as eh:
                p = subprocess.Popen([exe, of] + list(args), stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                                     stderr=eh, start_new_session=True, env=dict(os.environ, **(env or {})))
            import threading

            def feed():
                try:
                    p.stdin.write("".join(f"{i} {t}\n" for i, t in todo).encode())
                    p.stdin.close()
                except OSError:
                    pass
            th = threading.Thread(target=feed, daemon=True)
            th.start()
            last, t0, killed = -1, time.time(), False
            while True:
                try:
                    p.wait(0.05)
                    break
                except subprocess.TimeoutExpired:
                    pass
                sz = os.path.getsize(of) if os.path.exists(of) else 0
                if sz != last:
                    last, t0 = sz, time.time()
                elif time.time() - t0 > timeout:
                    killed = True
                    os.killpg(p.pid, signal.SIGKILL)
            th.join(2)
            cur = None
            done = set()
            for line in open(of, errors="replace") if os.path.exists(of) else []:
                if not line.endswith("\n"):
                    continue
                t = line.split()
                if not t:
                    continue
                if t[0] == "S":
                    cur = t[1]
                    res[cur] = ([], None)
                elif t[0] == "V" and t[1] in res:
                    res[t[1]][0].append(t[2:])
                elif t[0] == "E":
                    done.add(t[1])
            err = open(ef, errors="replace").read()
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*|terminate called[^\n]*\n[^\n]*)", err)
            why = "hang" if killed else f"rc={p.returncode} {m.group(1)[:200] if m else err[-150:]}"
            new = [i for i, _ in todo if i in res]
            for i in new:
                if i not in done and res[i][1] is None:
                    res[i] = (res[i][0], why)
            if not new:
                res[todo[0][0]] = ([], why)
            before = len(todo)
            todo = [x for x in todo if x[0] not in res]
            if p.returncode != 0 or killed or len(todo) == before:
                fails += 1
                if fails > maxfail:
                    break
        for f in (of, ef):
            if os.path.exists(f):
                os.remove(f)
        return res
    out = {}
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(chunk, [(i, lines[i::n]) for i in range(n) if lines[i::n]]):
            out.update(r)
    return out
