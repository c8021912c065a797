"""Runs under the controlled scheduler (harness/sched.cpp) and repeated runs."""
import hashlib, os, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import core

WRAP = ["create", "join", "exit", "mutex_init", "mutex_destroy", "mutex_lock", "mutex_trylock", "mutex_unlock",
        "cond_init", "cond_destroy", "cond_wait", "cond_signal", "cond_broadcast"]
FLAGS = ("-O0", "-finstrument-functions",
         "-finstrument-functions-exclude-file-list=/usr/include,/usr/lib,harness")
LINK = ["-Wl," + ",".join("--wrap=pthread_" + w for w in WRAP), "-lnuma", "-lpthread", "-lrt"]


def build(name, src, define=()):
    return core.build_exe(name, src + ["sched.cpp"], variant="sched", extra=FLAGS + tuple(define), link=LINK)


# ------------------------------------------------------------ probe hand-overs
def parse_handover(text):
    runs, cur = {}, None
    for line in text.split("\n"):
        t = line.split()
        if not t:
            continue
        if t[0] == "S":
            cur = runs.setdefault(t[1], {"ev": [], "done": False})
        elif t[0] == "E" and cur is not None:
            cur["done"] = True
        elif t[0] == "V" and t[1] in runs:
            a, e = t[3:], t[2]
            ev = {"e": e}
            if e == "Wake":
                ev["p"] = a[0]
            elif e == "Start":
                ev.update(w=int(a[0]), p=a[1], prepared=a[2] == "1")
            elif e == "Task":
                ev.update(w=int(a[0]), n=int(a[2]), **{"from": int(a[1])})
            elif e == "End":
                ev["w"] = int(a[0])
            elif e == "Done":
                ev["misuse"] = a[0]
            elif e == "Hang":
                ev["threads"] = a[0] if a else ""
            runs[t[1]]["ev"].append(ev)
    return runs


def handover_runs(exe, jobs, timeout=30):
    """jobs: dicts(id, kind, T, rows, seed, pol, prob, spur, phases).  Returns id -> events."""
    def line(j):
        return f"{j['id']} {j['kind']} {j['T']} {j['rows']} {j['seed']} {j['pol']} {j['prob']} {j['spur']:d} {' '.join(j['phases'])}\n"

    def chunk(a):
        n, todo = a
        res = {}
        of = os.path.join(core.scratch(), f"ho{os.getpid()}_{n}.txt")
        fails = 0
        while todo:
            p = subprocess.Popen([exe, of], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.DEVNULL, start_new_session=True)
            try:
                p.stdin.write("".join(map(line, todo)).encode())
                p.stdin.close()
            except BrokenPipeError:
                pass
            last, t0 = -1, time.time()
            killed = False
            while p.poll() is None:
                time.sleep(0.02)
                sz = os.path.getsize(of) if os.path.exists(of) else 0
                if sz != last:
                    last, t0 = sz, time.time()
                elif time.time() - t0 > timeout:
                    killed = True
                    os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
            runs = parse_handover(open(of).read() if os.path.exists(of) else "")
            for i, r in runs.items():
                if not r["done"]:
                    r["ev"].append({"e": "Hang", "threads": "spinning"} if killed else {"e": "Crash", "info": f"rc={rc}"})
                res[i] = r["ev"]
            left = [j for j in todo if j["id"] not in runs]
            if len(left) == len(todo):
                res[todo[0]["id"]] = [{"e": "Crash", "info": f"rc={rc} before the run"}]
                left = todo[1:]
            todo = left
            fails += rc != 0
            if fails > 60:
                break
        if os.path.exists(of):
            os.remove(of)
        return res
    out = {}
    n = core.NCPU
    _N[0] += 1
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(chunk, [(f"{_N[0]}_{i}", jobs[i::n]) for i in range(n) if jobs[i::n]]):
            out.update(r)
    return out


_N = [0]


def handover_trace(j, ev):
    return [{"e": "Begin", "nw": j["T"], "rows": j["rows"] if j["kind"] == "task" else 0, "tasks": j["kind"] == "task"}] + ev


# ------------------------------------------------------------- repeated runs
def result_of(rec):
    h = hashlib.sha256(repr(rec["cent"]).encode()).hexdigest()[:16]
    x = hashlib.sha256(repr(rec["extra"]).encode()).hexdigest()[:16]
    st = rec["status"].split(":")[0]
    return {"status": "ok" if st == "misuse" else st if st == "crash" else rec["status"],   # misuse is C07's matter
            "iters": min(rec["iters"], 10 ** 9), "k": min(rec["k"], 10 ** 9), "n": rec["nrow"],
            "counts": ",".join(map(str, rec["counts"])),
            "labels": ",".join(map(str, rec["assign"])) if len(rec["assign"]) <= 60
            else hashlib.sha256(repr(rec["assign"]).encode()).hexdigest()[:16],
            "centres": h, "other": x}
