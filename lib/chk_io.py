"""C17 reading and writing data, C18 result files and programs."""
import math, os, random, re, shutil, struct, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import core, gen, chk_d, chk_h, chk_m, chk_pp

MARK = {"d": "3c" * 8, "i": "3c" * 4}
SIZE = {"d": 8, "i": 4}


# ------------------------------------------------------------------ values
def dvalue(r):
    c = r.random()
    if c < 0.5:
        return struct.pack("<d", r.choice([0.0, -0.0, 1.0, r.randint(-50, 50) / 4, r.uniform(-1e3, 1e3)]))
    if c < 0.9:
        return struct.pack("<d", r.choice([r.random(), 1e300 * r.random(), 5e-324, -1e-310, float("inf"), 2.0 ** 53]))
    return bytes(r.randrange(256) for _ in range(8))          # any pattern of bits


def value(r, t):
    return (dvalue(r) if t == "d" else struct.pack("<i", r.choice([0, 1, -1, r.randint(-99, 99), r.randint(-2 ** 31, 2 ** 31 - 1)]))).hex()


def token(r, t):
    """A number as written in a text file, and the value it denotes."""
    if t == "i":
        v = r.choice([r.randint(-9, 9), r.randint(-10 ** 6, 10 ** 6), 2 ** 31 - 1, -2 ** 31])
        return str(v), struct.pack("<i", v).hex()
    v = r.choice([float(r.randint(-20, 20)), r.uniform(-100, 100), r.random() * 10 ** r.randint(-30, 30), -0.0, 0.1])
    s = r.choice([repr(v), "%.17g" % v, "%.3f" % v, "%e" % v, "%d" % v, "%.1f" % v])
    return s, struct.pack("<d", float(s)).hex()


# --------------------------------------------------------------- scenarios
class Sc:
    """Operations for the driver with, for each, the event it becomes."""
    def __init__(self, r, t):
        self.r, self.t, self.ops, self.evs = r, t, [], []

    def op(self, text, ev, out=None):
        self.ops.append(text)
        self.evs.append((ev, out))

    def buf(self, n):
        return [MARK[self.t]] * n


def bin_scenario(r, t):
    s = Sc(r, t)
    nr, nc = r.randint(1, 5), r.randint(1, 4)
    vals = [value(r, t) for _ in range(nr * nc)]
    have = r.choice([len(vals)] * 5 + [r.randint(0, len(vals)), len(vals) + 2])
    src = (vals + [value(r, t) for _ in range(2)])[:have]
    if r.random() < 0.7:
        s.op("open a w bin wb 0 0", {"e": "Open", "f": "a", "h": "w", "kind": "bin", "mode": "wb", "nrow": 0, "ncol": 0})
        i = 0
        while i < len(src):
            m = r.randint(1, len(src) - i)
            s.op("write w %s %s" % (r.choice("pv"), " ".join(src[i:i + m])), {"e": "Write", "h": "w", "v": src[i:i + m]})
            i += m
        s.op("close w", {"e": "Close", "h": "w"})
        s.op("bytes a", {"e": "Bytes", "f": "a"}, "v")
    else:
        rest = r.choice(["", "", "", "00", "1122"])
        s.op("raw a %s" % ("".join(src) + rest), {"e": "Raw", "f": "a", "v": src, "lines": []})
    if r.random() < 0.5:
        mode = r.choice(["rb", "default"])
        s.op(f"open a h bin {mode} {nr} {nc}", {"e": "Open", "f": "a", "h": "h", "kind": "bin", "mode": mode, "nrow": nr, "ncol": nc})
        for _ in range(r.randint(2, nr + 4)):
            x = r.random()
            if x < 0.25:
                s.op("more h", {"e": "More", "h": "h"}, "yes")
            elif x < 0.8:
                f = r.choice("vp")
                s.op("line h " + f, {"e": "Line", "h": "h", "buf": s.buf(nc + (f == "p"))}, "v")
            else:
                s.op("all h " + r.choice("vp"), {"e": "All", "h": "h", "buf": s.buf(nr * nc + 1)}, "v")
    else:
        s.op("open a h rm rb 0 0", {"e": "Open", "f": "a", "h": "h", "kind": "rm", "mode": "rb", "nrow": 0, "ncol": 0})
        if r.random() < 0.95:
            s.op(f"ncol h {nc}", {"e": "Ncol", "h": "h", "c": nc})
        for _ in range(r.randint(2, nr + 4)):
            x = r.random()
            if x < 0.2:
                p = r.randint(0, nr * nc)
                s.op(f"seek h {p * SIZE[t]}", {"e": "Seek", "h": "h", "p": p})
            elif x < 0.35:
                s.op("nrow h", {"e": "Nrow", "h": "h"}, "n")
            elif x < 0.85:
                m = r.choice([nc, nc, nc, r.randint(1, 2 * nc)])
                s.op(f"rline h {m}", {"e": "Rline", "h": "h", "buf": s.buf(m)}, "okv")
            else:
                m = r.choice([nc * nr, r.randint(1, nc * nr)])
                s.op(f"rall h {m}", {"e": "Rall", "h": "h", "buf": s.buf(m)}, "_v")
    return s


def text_scenario(r, t):
    s = Sc(r, t)
    nr, nc = r.randint(1, 6), r.randint(1, 5)
    lines, text = [], ""
    for i in range(nr):
        n = nc if r.random() < 0.85 else r.randint(0, nc + 2)
        toks = [token(r, t) for _ in range(n)]
        lines.append([v for _, v in toks])
        sep = lambda: r.choice([" ", " ", "\t", "  ", " \t"])
        line = r.choice(["", "", " "]) + "".join((sep() if q else "") + x for q, (x, _) in enumerate(toks)) + r.choice(["", "", " ", "\r"])
        if i < nr - 1 or r.random() < 0.8:
            line += "\n"
        if line:
            text += line
        else:
            lines.pop()              # an empty line without its end is none
    s.op("raw a %s" % text.encode().hex(), {"e": "Raw", "f": "a", "v": [], "lines": lines})
    s.op("open a h txt r 0 0", {"e": "Open", "f": "a", "h": "h", "kind": "txt", "mode": "r", "nrow": 0, "ncol": 0})
    total = sum(len(x) for x in lines)
    widest = max([len(x) for x in lines] + [1])
    for _ in range(r.randint(1, nr + 3)):
        x = r.random()
        if x < 0.2:
            s.op("nrow h", {"e": "Nrow", "h": "h"}, "n")
        elif x < 0.75:
            m = widest + r.choice([0, 0, 1])
            s.op(f"rline h {m}", {"e": "Rline", "h": "h", "buf": s.buf(m)}, "okv")
        else:
            m = max(1, total) + r.choice([0, 0, 2])
            s.op(f"rall h {m}", {"e": "Rall", "h": "h", "buf": s.buf(m)}, "_v")
    s.op("nrow h", {"e": "Nrow", "h": "h"}, "n")
    return s


def store_scenario(r, _):
    s = Sc(r, "d")
    n, d, k = r.randint(1, 12), r.randint(1, 4), r.randint(1, 4)
    lab = [r.randrange(k) for _ in range(n)]
    data = [value(r, "d") for _ in range(n * d)]
    for c in r.sample(range(k), r.randint(1, k)):
        m = lab.count(c)
        s.op(f"store {c} {m} {n} {d} {' '.join(map(str, lab))} {' '.join(data)}",
             {"e": "Store", "id": c, "numel": m, "lab": lab, "d": d, "data": data})
        fn = f"cluster_{c}_r{m}_c{d}.bin"
        s.op("bytes " + fn, {"e": "Bytes", "f": fn}, "v")
    return s


def load_scenario(r, _):
    s = Sc(r, "d")
    n, d = r.randint(2, 40), r.randint(1, 5)
    data = [struct.pack("<d", r.uniform(-10, 10)).hex() for _ in range(n * d)]
    s.op("raw a " + "".join(data), {"e": "Raw", "f": "a", "v": data, "lines": []})
    s.op(f"load a {r.choice(['full', 'prune'])} {n} {d} {r.choice([1, 2, 3, 4, 7, n, n + 2])}", {"e": "Load", "f": "a"}, "v")
    return s


def far_scenario(r, _):
    """Rows so far into a file that their position needs more than 32 bits (the file has a hole before them)."""
    s = Sc(r, "d")
    d = r.choice([1, 2, 3, 4, 7, 8, 16])
    first = r.choice([0, 5, 2 ** 28, 2 ** 29, 2 ** 29 + 1, 2 ** 29 + 77, 2 ** 30 - 3, 10 ** 9]) // d      # row the part begins with
    n = r.randint(2, 8)
    data = [value(r, "d") for _ in range(n * d)]
    s.op(f"hole a {first * d} " + "".join(data), {"e": "Raw", "f": "a", "v": data, "lines": [], "base": first * d})
    if r.random() < 0.7:
        for _ in range(r.randint(1, 3)):
            a = r.randint(0, n - 1)
            m = r.randint(1, n - a) if r.random() < 0.9 else n - a + 1
            s.op(f"far a {first + a} {m} {d}", {"e": "Far", "f": "a", "start": first + a, "n": m, "d": d}, "v")
    else:
        s.op("open a h rm rb 0 0", {"e": "Open", "f": "a", "h": "h", "kind": "rm", "mode": "rb", "nrow": 0, "ncol": 0})
        s.op(f"ncol h {d}", {"e": "Ncol", "h": "h", "c": d})
        for _ in range(r.randint(1, 3)):
            p = (first + r.randint(0, n - 1)) * d
            s.op(f"seek h {p * 8}", {"e": "Seek", "h": "h", "p": p})
            s.op(f"rline h {d}", {"e": "Rline", "h": "h", "buf": s.buf(d)}, "okv")
    return s


def to_trace(s, vlines):
    ev = [{"e": "Begin"}]
    got = {int(v[0]): v[1:] for v in vlines if v[0] != "DEAD"}
    dead = any(v[0] == "DEAD" for v in vlines)
    for i, (e, out) in enumerate(s.evs):
        e = dict(e)
        if i not in got:
            if e["e"] in ("Line", "All", "Rline", "Rall", "Store", "Load", "Far"):
                ev.append(dict(e, dead=True, ok=False, v=[]))
            else:
                ev.append({"e": "Refused", "in": e["e"]})
            break
        g = got[i]
        if e["e"] in ("Line", "All", "Rline", "Rall", "Store", "Load", "Far"):
            e["dead"] = False
        if out == "v":
            e["v"] = g
        elif out == "_v":
            e["v"] = g[1:]
        elif out == "okv":
            e["ok"], e["v"] = g[0] == "1", g[1:]
        elif out == "yes":
            e["yes"] = g[0] == "1"
        elif out == "n":
            e["n"] = int(g[0])
        ev.append(e)
    else:
        if dead:
            ev.append({"e": "Refused", "in": "end"})
    return ev


def can_far():
    """Whether the scratch directory can hold sparse files beyond 4 GB."""
    p = os.path.join(core.scratch(), "probe")
    try:
        with open(p, "wb") as f:
            f.seek(2 ** 33 + 2 ** 31)
            f.write(b"x")
        return os.stat(p).st_blocks < 2 ** 20
    except OSError:
        return False
    finally:
        if os.path.exists(p):
            os.remove(p)


KINDS = {"bin": bin_scenario, "text": text_scenario, "store": store_scenario, "load": load_scenario, "far": far_scenario}


def io_items(ctx, exe, jobs):
    sc = [KINDS[j["kind"]](random.Random(j["seed"]), j["t"]) for j in jobs]
    lines = [(str(i), s.t + " ; " + " ; ".join(s.ops)) for i, s in enumerate(sc)]
    res = core.run_lines(exe, lines, args=[core.scratch()])
    return [(j, to_trace(s, res[str(i)][0] if str(i) in res else [["DEAD"]])) for i, (j, s) in enumerate(zip(jobs, sc))]


def corrupt_io(ev, r):
    es = [e for e in ev if e.get("v") and e["e"] in ("Line", "All", "Bytes", "Load", "Rall", "Rline") and e.get("ok", True) and not e.get("dead")]
    if not es:
        return None
    e = r.choice(es)
    if e["e"] == "Rall" or (e["e"] == "Rline" and len(ev) > 3):
        return None                   # may be in a stretch that is skipped
    i = r.randrange(len(e["v"]))
    e["v"] = e["v"][:i] + ["00" if e["v"][i] != "00" else "01"] + e["v"][i + 1:]
    return ev


# ---------------------------------------------------------------- programs
PROGS = ["knori", "mb_knori", "fcm", "skmeans", "hmeans", "xmeans", "gmeans", "medoids", "kmeanspp", "knord"]


def programs(names=PROGS):
    core.build_objs(("libkcommon", "libauto", "libman"))
    if "knord" in names:
        core.build_objs(("libdist",))

    def one(p):
        src = os.path.join(core.REPO, "exec", p + ".cpp")
        if p == "knord":
            return core.build_exe("p_knord", [src], libs=("libkcommon", "libman", "libdist"), cxx="mpicxx.openmpi",
                                  link=("-lnuma", "-lpthread", "-lrt", "-lmpi_cxx", "-lmpi"))
        return core.build_exe("p_" + p, [src])
    with ThreadPoolExecutor(len(names)) as ex:
        return dict(zip(names, ex.map(one, names)))


def model_io(ctx):
    for bug, expect in [("none", None), ("skip", "NothingLost is violated"), ("repeat", "ReadBack is violated"), ("short", "is violated")]:
        r, c = (4, 3) if ctx.thorough and bug == "none" else (3, 2)
        ctx.bg(ctx.model, "MCFileIO", "SPECIFICATION Spec\nINVARIANTS ReadBack NothingLost ShortRefused DoneIsWhole\n"
               f'CONSTRAINT Bound\nCHECK_DEADLOCK FALSE\nCONSTANTS R={r} C={c} Bug="{bug}"\n',
               f"file {r} x {c}, variant {bug}", expect=expect, workers=1)


def run_program(exe, args, data, centers=None, np=0, timeout=60):
    """Run a program in a directory of its own; returns (exit code, result file text or None, stderr, where)."""
    wd = tempfile.mkdtemp(prefix="prog.", dir=core.scratch())
    try:
        with open(os.path.join(wd, "data.bin"), "wb") as f:
            f.write(data)
        if any(a.rstrip("/").endswith("have") for a in args):
            os.mkdir(os.path.join(wd, "have"))
            with open(os.path.join(wd, "have", "cluster_t.yml"), "w") as f:
                f.write("old content " * 500)
        args = [a.replace("@WD@", wd) for a in args]
        if centers is not None:
            with open(os.path.join(wd, "centers.bin"), "wb") as f:
                f.write(centers)
        env = dict(os.environ, OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0")
        cmd = [exe] + args
        if np:
            env.update({k: v.replace("@WD@", wd) for k, v in chk_d.MPIENV.items()})
            cmd = chk_d.mpirun(np) + cmd
        try:
            p = subprocess.run(cmd, cwd=wd, env=env, capture_output=True, timeout=timeout, stdin=subprocess.DEVNULL)
            rc, err = p.returncode, p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, err = "hang", ""
        found = {}
        for root, _, fs in os.walk(wd):
            for f in fs:
                if f == "cluster_t.yml":
                    found[os.path.relpath(os.path.join(root, f), wd)] = open(os.path.join(root, f)).read()
        return rc, found, err
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def size_items(exes, jobs):
    """Data files of right and wrong size given to every program."""
    def one(j):
        n, d, b = j["n"], j["d"], j["bytes"]
        data = struct.pack("<%dd" % (n * d + 3), *[((i * 7) % 11) + (i % 3) / 4 for i in range(n * d + 3)])[:b]
        a = (["data.bin", str(n), str(d), "2"] if j["prog"] == "knord" else
             ["-f", "data.bin", "-n", str(n), "-m", str(d), "-k", "2"])
        a += ["-T", "2", "-o", "out"]
        if j["prog"] not in ("kmeanspp",):
            a += ["-i", "2"]
        rc, found, _ = run_program(exes[j["prog"]], a, data, np=2 if j["prog"] == "knord" else 0)
        return j, [{"e": "Begin"}, {"e": "Prog", "prog": j["prog"], "bytes": b, "nrow": n, "ncol": d,
                                    "ran": rc == 0, "wrote": bool(found)}]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, jobs))


def c17(ctx):
    model_io(ctx)
    exe = core.build_exe("iodrv", ["iodrv.cpp"])
    r = ctx.rnd
    jobs = [{"kind": k, "t": r.choice("ddi") if k in ("bin", "text") else "d", "seed": r.randrange(2 ** 40)}
            for k, m in [("bin", 2500), ("text", 2000), ("store", 500), ("load", 400), ("far", 300 * can_far())] for _ in range(ctx.pick(m, 10 * m))]
    ctx.traces("FileIOTrace", io_items(ctx, exe, jobs), label="readers and writers", canary=corrupt_io,
               rerun=lambda j: io_items(ctx, exe, [j])[0][1])
    exes = programs()
    jobs = []
    for p in PROGS:
        for i in range(ctx.pick(5, 30)):
            n, d = r.randint(6, 20), r.randint(1, 4)
            size = n * d * 8
            jobs.append({"prog": p, "n": n, "d": d,
                         "bytes": [size, size + 8, size - 8, r.choice([0, 1, size + 1, size - 1]), size + r.randint(1, 16)][i % 5]})
    ctx.traces("FileIOTrace", size_items(exes, jobs), label="data files of right and wrong size",
               rerun=lambda j: size_items(exes, [j])[0][1])
    return "model_checking", {}



# ---------------------------------------------------------------- results
def number(v):
    """Sign, nine digits and exponent of a value."""
    if math.isnan(v) or math.isinf(v):
        return {"neg": False, "m": 0, "e": 0, "s": str(v)}
    if v == 0:
        return {"neg": False, "m": 0, "e": 0, "s": ""}
    a, e = ("%.8e" % abs(v)).split("e")
    return {"neg": v < 0, "m": int(a.replace(".", "")), "e": int(e), "s": ""}


def tokens(text):
    out = []
    for x in re.findall(r"[A-Za-z_]\w*:|[\[\],]|[^\s\[\],]+", text):
        if re.fullmatch(r"[A-Za-z_]\w*:|[\[\],]", x):
            out.append({"t": "sym", "text": x})
        else:
            try:
                out.append(dict(number(float(x)), t="num", text=x))
            except ValueError:
                out.append({"t": "word", "text": x})
    return out


def result(k, iters, n, d, size, lab, cen):
    return {"k": k, "iters": iters, "nrow": n, "ncol": d, "size": size, "lab": lab,
            "cen": [[number(v) for v in cen[i * d:(i + 1) * d]] for i in range(len(cen) // d)]}


def file_items(exe, jobs):
    lines, want = [], []
    for i, j in enumerate(jobs):
        r = random.Random(j["seed"])
        k, n, d = r.randint(1, 6), r.choice([1, r.randint(1, 8), r.randint(1, 30)]), r.randint(1, 5)
        size = [r.choice([0, r.randint(0, 9), r.randint(0, 2 ** 31 - 1)]) for _ in range(k)]
        lab = [r.randrange(k) if r.random() < 0.9 else r.randint(0, 10 ** 6) for _ in range(n)]
        cen = [struct.unpack("<d", bytes.fromhex(dvalue(r).hex()))[0] if r.random() < 0.5 else
               r.choice([r.randint(-10 ** 7, 10 ** 7), r.uniform(-1, 1), 999999.5, 9.999995, -0.1, 100000, 1e6]) for _ in range(k * d)]
        it = r.choice([0, 1, r.randint(0, 10 ** 6)])
        where = r.choice(["r%d" % i, "r%d/a/b" % i, "r%d/" % i])
        lines.append((str(i), "d ; result " + " ".join(map(str, [where, k, it, n, d] + size + lab + [struct.pack("<d", v).hex() for v in cen]))))
        want.append(result(k, it, n, d, size, lab, cen))
    res = core.run_lines(exe, lines, args=[core.scratch()])
    out = []
    for i, j in enumerate(jobs):
        v = res.get(str(i), ([["DEAD"]], None))[0]
        ok = bool(v) and v[0][0] != "DEAD"
        text = bytes.fromhex(v[0][1]).decode(errors="replace") if ok else ""
        out.append((j, [{"e": "File", "ran": ok, "res": want[i], "toks": tokens(text)}]))
    return out


ENGINE = {"mb_knori": "mb", "fcm": "fcm", "skmeans": "skm", "hmeans": "hcl", "xmeans": "xm", "gmeans": "gm", "medoids": "med",
          "kmeanspp": "kpp"}
LONG = {"f": "datafn", "n": "nsamples", "m": "dim", "k": "nclust", "T": "num_thread", "i": "iters", "C": "centersfn", "t": "init",
        "O": "omp", "P": "prune", "N": "nnodes", "d": "dist", "l": "tol", "o": "outdir", "M": "mb_size", "z": "fuzzindex",
        "s": "min_clust_size", "S": "strictness"}


def prog_job(r, jid, prog):
    """Parameters for a program, as a job for the library and as arguments."""
    x = {}
    if prog in ("knori", "knord"):
        omp, full = prog == "knori" and r.random() < 0.4, r.random() < 0.4
        eng = ("auto" if full else "autop") if omp else "full" if full else "prune"
        j = gen.exact_job(r, jid, eng, T=r.choice([1, 2, 3, 4]), nmax=25, moved=False,
                          init=r.choice(["none", "forgy", "kmeanspp"] + ["random"] * (prog == "knori")))
        if prog == "knori" and full and r.random() < 0.3:
            j["dist"] = "cos"
            j["data"] = [[v if any(p) else 1 for v in p] for p in j["data"]]
        flags = ["-O"] * omp + ["-P"] * full
    elif prog in ("hmeans", "xmeans", "gmeans"):
        j = chk_h.h_job(r, jid, ENGINE[prog], metric=False)
        flags = []
    else:
        j = {"mb_knori": chk_m.mb_job, "fcm": chk_m.fcm_job, "skmeans": chk_m.skm_job, "medoids": chk_m.med_job,
             "kmeanspp": lambda r, i: chk_pp.pp_job(r, i, r.choice([1, 2, 3, 10]), "file")}[prog](r, jid)
        flags = []
    j["engine"] = ENGINE.get(prog, j.get("engine"))
    j["id"] = str(jid)
    j["nn"] = 1
    x = j.get("x", {})
    j["place"] = "mem" if j["engine"] in ("auto", "autop", "med") else "file"
    j["maxit"] = r.choice([1, 2, 3, 30])
    if prog == "skmeans" and j["init"] != "none":
        j["init"] = "forgy"
    long = lambda: prog != "knord" and r.random() < 0.3
    a = []

    def opt(c, v):
        name = {("k", True): "kmax"}.get((c, prog in ("hmeans", "xmeans", "gmeans")), LONG[c])
        name = {("s", "medoids"): "srate", ("s", "kmeanspp"): "num_starts"}.get((c, prog), name)
        a.append(["--" + name, str(v)] if long() and r.random() < 0.5 else ["--%s=%s" % (name, v)] if long() else ["-" + c, str(v)])
    lead = []
    if prog == "knord" or r.random() < 0.4:
        lead = ["data.bin", str(j["n"]), str(j["d"]), str(j["k"])]
    else:
        for c, v in [("f", "data.bin"), ("n", j["n"]), ("m", j["d"]), ("k", j["k"])]:
            opt(c, v)
    opt("T", j["T"])
    if prog != "kmeanspp":
        unlimited = prog in ("knori", "knord") and j.get("dist", "eucl") == "eucl" and j["tol"] != 0 and r.random() < 0.3
        if unlimited:
            j["maxit"] = 2 ** 32 - 1
        else:
            opt("i", j["maxit"])
        default_tol = 1e-6 if prog in ("fcm", "hmeans", "xmeans", "gmeans") else -1
        if j["tol"] != default_tol or r.random() < 0.3:
            opt("l", repr(j["tol"]))
        if j["init"] == "none":
            opt("C", "centers.bin")
        elif prog in ("knori", "mb_knori", "knord"):
            if j["init"] != "kmeanspp" or r.random() < 0.5:
                opt("t", j["init"])
    dd = {"fcm": "sqeucl", "skmeans": "cos", "medoids": "taxi"}.get(prog, "eucl")
    if j.get("dist", "eucl") != dd or r.random() < 0.3:
        opt("d", j.get("dist", "eucl"))
    if r.random() < 0.5:
        opt("N", 1)
    if prog == "mb_knori" and (x["mb"] != 100 or r.random() < 0.5):
        opt("M", x["mb"])
    if prog == "fcm" and (x["fuzz"] != 2 or r.random() < 0.5):
        opt("z", x["fuzz"])
    if prog in ("hmeans", "xmeans", "gmeans"):
        opt("s", x["min"])
    if prog == "gmeans" and (x["strict"] != 4 or r.random() < 0.5):
        opt("S", x["strict"])
    if prog == "medoids":
        if x["rate"] != .2 or r.random() < 0.5:
            opt("s", repr(x["rate"]))
    if prog == "kmeanspp" and (x["starts"] != 10 or r.random() < 0.5):
        opt("s", x["starts"])
    j["out"] = r.choice(["out", "out", "a/b/out", "@WD@/abs", "have", "have/", "with space", ""])
    if j["out"]:
        opt("o", j["out"])
    r.shuffle(a)
    j["prog"], j["args"] = prog, lead + sum(a, []) + flags
    j["np"] = min(r.choice([1, 2, 3]), j["n"]) if prog == "knord" else 0
    return j


def defaults(j):
    """The same job with one option left out, for every option it uses."""
    p, x = j["prog"], j.get("x", {})
    out = {}
    if p != "kmeanspp":
        if j["maxit"] < 1000:
            out["i"] = {"maxit": 60}
        dt = 1e-6 if p in ("fcm", "hmeans", "xmeans", "gmeans") else -1
        if j["tol"] != dt:
            out["l"] = {"tol": dt}
        di = "kmeanspp" if p in ("knori", "mb_knori", "knord") else "forgy"
        if j["init"] != di and j["k"] <= j["n"]:
            out["C" if j["init"] == "none" else "t"] = {"init": di, "centers": None}
    dd = {"fcm": "sqeucl", "skmeans": "cos", "medoids": "taxi"}.get(p, "eucl")
    if j.get("dist", "eucl") != dd and dd != "cos":
        out["d"] = {"dist": dd}
    for o, f, v in [("M", "mb", 100), ("z", "fuzz", 2), ("s", "min", 2), ("S", "strict", 4), ("s", "rate", .2), ("s", "starts", 10)]:
        if f in x and x[f] != v:
            out[o] = {"x": dict(x, **{f: v})}
    return out


def choose(kexe, jobs, per, quota=5):
    """Prefer jobs on which each option matters to the result of the library."""
    alts = []
    for j in jobs:
        alts.append(j)
        alts += [dict(j, id=j["id"] + "." + o, **ch) for o, ch in defaults(j).items()]
    lib = core.run_jobs(kexe, alts, timeout=30)
    key = lambda r: (r["status"], r["iters"], r["k"], r["counts"], r["assign"], r["cent"])
    have, picked, rest = {}, [], []
    for j in jobs:
        m = [o for o in defaults(j) if key(lib[j["id"] + "." + o]) != key(lib[j["id"]])]
        if any(have.get((j["prog"], o), 0) < quota for o in m):
            picked.append(j)
            for o in m:
                have[j["prog"], o] = have.get((j["prog"], o), 0) + 1
        else:
            rest.append(j)
    count = {}
    for j in picked:
        count[j["prog"]] = count.get(j["prog"], 0) + 1
    for j in rest:
        if count.get(j["prog"], 0) < per(j["prog"]):
            count[j["prog"]] = count.get(j["prog"], 0) + 1
            picked.append(j)
    return picked, have


def prog_items(exes, kexe, jobs):
    lib = core.run_jobs(kexe, jobs, timeout=30)

    def vals(rows, sc):
        return struct.pack("<%dd" % sum(map(len, rows)), *[v / sc for p in rows for v in p])

    def one(j):
        rec = lib[j["id"]]
        sc = j.get("scale", 1)
        data = [j["pts"][q] for q in j["rep"]] if "rep" in j else j["data"]
        cen = j.get("centers")
        rc, found, err = run_program(exes[j["prog"]], j["args"], vals(data, j.get("inscale", sc)),
                                     vals(cen, sc) if j["init"] == "none" and cen else None, np=j["np"])
        ev = {"e": "Run", "prog": j["prog"], "args": " ".join([j["prog"]] + j["args"]) + " np=%d" % j["np"], "ran": rc == 0}
        if rec["status"] != "ok":
            return j, None
        if not j["out"]:
            return j, [dict(ev, e="Quiet", other=len(found))]
        want = os.path.normpath(j["out"].replace("@WD@/", "") + "/cluster_t.yml")
        text = found.get(want)
        res = result(rec["k"], rec["iters"], rec["nrow"], rec["ncol"], rec["counts"], rec["assign"], rec["cent"])
        return j, [dict(ev, wrote=text is not None, other=len(set(found) - {want}), res=res, toks=tokens(text or ""))]
    with ThreadPoolExecutor(8) as ex:
        return [x for x in ex.map(one, jobs) if x[1]]


def corrupt_file(ev, r):
    e = ev[0]
    nums = [t for t in e.get("toks", []) if t["t"] == "num" and t["s"] == "" and t["m"] > 0]
    if not nums:
        return None
    t = r.choice(nums)
    t["text"] += "0"
    t["m"] += -2000 if t["m"] > 500000000 else 2000
    return ev


def model_result(ctx):
    for bug, expect in [("none", None), ("bycol", "is violated"), ("kk", "is violated"), ("short", "is violated")]:
        k, n, d = (3, 3, 2) if ctx.thorough and bug == "none" else (2, 3, 2)
        ctx.bg(ctx.model, "MCResultFile", "SPECIFICATION Spec\nINVARIANTS IsPrefix WritesFormat ReadsBack\nPROPERTY Ends\n"
               f'CHECK_DEADLOCK FALSE\nCONSTANTS K={k} N={n} D={d} V={{3, 4}} Bug="{bug}"\n',
               f"result file up to {k} clusters, {n} rows, {d} columns, variant {bug}", expect=expect, workers=1)


def c18(ctx):
    model_result(ctx)
    exe = core.build_exe("iodrv", ["iodrv.cpp"])
    r = ctx.rnd
    jobs = [{"seed": r.randrange(2 ** 40)} for _ in range(ctx.pick(600, 6000))]
    ctx.traces("ResultFileTrace", file_items(exe, jobs), label="result objects written", canary=corrupt_file,
               rerun=lambda j: file_items(exe, [j])[0][1])
    exes = programs()
    kexe = core.build_exe("kmdrv", ["kmdrv.cpp"])
    per = lambda p: ctx.pick(16 if p == "knord" else 45, 500)
    jobs = [prog_job(r, f"{p}{i}", p) for p in PROGS for i in range(ctx.pick(150, 1500))]
    jobs, have = choose(kexe, jobs, per)
    core.log("[C18] runs in which an option matters: " + ", ".join(f"{p} -{o} {c}" for (p, o), c in sorted(have.items())))
    items = prog_items(exes, kexe, jobs)
    core.log(f"[C18] {len(jobs)} program runs, {len(items)} with a library result")
    if len(items) < 0.8 * len(jobs):
        raise core.CheckError("too few library results to compare with")
    ctx.traces("ResultFileTrace", items, label="programs against the library", canary=corrupt_file,
               rerun=lambda j: prog_items(exes, kexe, [j])[0][1])
    return "model_checking", {}


# ---------------------------------------------------------------- arguments
BADDIST = ["foo", "Eucl", "EUCL", "cosine", "cosin", "l2", "manhattan", "euc", "eucl2", "euclidean", "taxicab", "sqeuclid", "sq", "0"]
BADINIT = ["foo", "Forgy", "rand", "randomly", "kmeans++", "kmeanspp2", "kmeans", "forgy_", "nonesuch", "none"]


def cmd_job(r, jid, p, bad, word=None, omp=None, full=None):
    """Arguments of a program, usable except for what `bad` names."""
    n, d = r.randint(8, 20), r.randint(1, 3)
    j = {"id": jid, "prog": p, "omp": p == "knori" and (r.random() < 0.5 if omp is None else omp), "unknown": False, "data": "ok", "cfile": "none", "k": 2,
         "init": "forgy", "dist": r.choice(["eucl", "eucl", "cos"]), "tol": "num", "nargs": "enough", "n": n, "d": d, "np": 0}
    if p not in ("knori", "mb_knori"):
        j["dist"] = "eucl"            # cosine is for rows that are not zero, also after scaling or splitting
    inits = p in ("knori", "mb_knori", "knord")
    if inits:
        j["init"] = r.choice(["forgy", "random", "kmeanspp"] if p != "knord" else ["forgy", "kmeanspp"])
    if p not in ("kmeanspp", "medoids") and (r.random() < 0.25 or bad == "initok"):
        j["cfile"] = "ok"
    if full is None:
        full = r.random() < 0.5 or j["dist"] != "eucl"
    if not full:
        j["dist"] = "eucl"
    flags = ["-P"] if p == "knori" and full else []
    extra, clean = [], False
    if bad == "unknown":
        j["unknown"] = True
        extra = r.choice([["-q", "3"], ["--nosuch"], ["--iterations=3"], ["-Z", "1"]]) if inits else r.choice([["-t", "forgy"], ["--nosuch", "2"], ["-q"]])
    elif bad == "data":
        j["data"] = "missing"
    elif bad == "size":
        j["data"] = "short"
    elif bad == "k":
        j["k"] = 0
    elif bad == "dist":
        j["dist"] = word
    elif bad == "init":
        j["init"], j["cfile"] = word, "none"
    elif bad == "cfile":
        j["cfile"] = r.choice(["missing", "missing", "short"])
    elif bad == "tol":
        j["tol"] = "word"
    elif bad == "few":
        j["nargs"], clean = "few", True
    elif bad == "help":
        j["nargs"] = "help"
    words = {"f": "nodata.bin" if j["data"] == "missing" else "data.bin", "n": n, "m": d, "k": j["k"], "T": r.choice([1, 2, 3])}
    a = [["-" + c, str(v)] for c, v in words.items()]
    if p != "kmeanspp":
        a.append(["-i", str(r.choice([1, 3, 9]))])
        if j["tol"] == "word" or r.random() < 0.3:
            a.append(["-l", r.choice(["abc", "none", "x1", "--"]) if j["tol"] == "word" else "0.001"])
    if inits and (j["init"] != "kmeanspp" or r.random() < 0.5) and (j["cfile"] == "none" or r.random() < 0.3 or bad == "initok"):
        a.append(["-t", j["init"] if bad != "initok" else r.choice(["none", "random", "forgy"] if p != "knord" else ["none", "forgy"])])
    a.append(["-d", j["dist"]])
    if j["cfile"] != "none":
        a.append(["-C", "nocenters.bin" if j["cfile"] == "missing" else "centers.bin"])
    a.append(["-o", "out"])
    if extra:
        a.append(extra)
    if p == "knord":
        a = [x for x in a if x[0] not in ("-f", "-n", "-m", "-k")]
    r.shuffle(a)
    lead = [str(words[c]) for c in "fnmk"] if p == "knord" else []
    j["args"] = lead + sum(a, []) + flags + (["-O"] if j["omp"] else [])
    if bad == "few":
        j["args"] = ["data.bin", str(n), str(d)][:r.choice([0, 1, 2, 3])]
    if bad == "help":
        j["args"].insert(0, r.choice(["-h", "--help"]))
    j["np"] = r.choice([1, 2]) if p == "knord" else 0
    return j


def cmd_items(exes, jobs):
    def one(j):
        n, d = j["n"], j["d"]
        val = lambda i: float((i * 37 % 23) + (i % 5) * 10 + 1)
        data = struct.pack("<%dd" % (n * d), *[val(i) for i in range(n * d)])
        if j["data"] == "short":
            data = data[:-8]
        cen = struct.pack("<%dd" % (2 * d), *[val(i) for i in range(2 * d)])
        if j["cfile"] == "short":
            cen = cen[:-4]
        rc, found, _ = run_program(exes[j["prog"]], j["args"], data, cen if j["cfile"] in ("ok", "short") else None, np=j["np"])
        ev = {k: j[k] for k in ("prog", "omp", "unknown", "data", "cfile", "k", "init", "dist", "tol", "nargs")}
        return j, [dict(ev, e="Run", args=" ".join([j["prog"]] + j["args"]), hang=rc == "hang", rc=0 if rc == 0 else 1, wrote=bool(found))]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, jobs))


def corrupt_cmd(ev, r):
    ev[0]["wrote"] = not ev[0]["wrote"]
    return ev


def c25(ctx):
    for bug, expect in [("none", None), ("fallback", "WritesWhenUsable is violated"), ("nocentres", "WritesWhenUsable is violated"),
                        ("latecheck", "WritesWhenUsable is violated"), ("nonewithout", "WritesWhenUsable is violated")]:
        ctx.bg(ctx.model, "MCCmdLine", "SPECIFICATION Spec\nINVARIANTS WritesWhenUsable Status\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
               f'CONSTANT Bug="{bug}"\n', f"all arguments of a program, variant {bug}", expect=expect, workers=2)
    exes = programs()
    r = ctx.rnd
    jobs = []
    for p in PROGS:
        eng = [(o, f) for o in (False, True) for f in (False, True)] if p == "knori" else [(False, False)]
        few = p == "knord" and not ctx.thorough
        add = lambda *a, **kw: jobs.append(cmd_job(r, f"{p}.{a[0]}.{len(jobs)}", p, *a, **kw))
        for omp, full in eng:
            for w in (r.sample(BADDIST, 3) if few else BADDIST) + (["taxi", "sqeucl"] if omp else []):
                add("dist", w, omp=omp, full=full)
            for w in (r.sample(BADINIT, 3) if few else BADINIT) if p in ("knori", "mb_knori", "knord") else []:
                add("init", w, omp=omp, full=full)
            for bad in ["ok", "ok", "ok", "unknown", "data", "size", "k", "initok", "cfile", "cfile", "tol", "few", "help"]:
                if bad == "initok" and p not in ("knori", "mb_knori", "knord") or bad == "tol" and p in ("kmeanspp", "knord") or bad == "cfile" and p == "kmeanspp":
                    continue
                for i in range(ctx.pick(1 if few else 3, 12)):
                    add(bad, omp=omp, full=full if bad != "ok" else None)
    ctx.traces("CmdLineTrace", cmd_items(exes, jobs), label="program calls", canary=corrupt_cmd, rerun=lambda j: cmd_items(exes, [j])[0][1])
    return "model_checking", {"calls": len(jobs)}


CHECKS = {"C17": c17, "C18": c18, "C25": c25}
