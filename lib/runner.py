"""One check run: model checking, trace validation, confirmation, evidence."""
import copy, json, os, random, sys, time, traceback
import core
from core import CheckError, VERIF, log


class Enough(Exception):
    """A violation is established; the rest of the run would add nothing."""


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rnd = random.Random(f"{seed}/{pid}/{tier}")
        self.t0 = time.time()
        self.states = self.transitions = self.ntraces = self.events = self.canaries = 0
        self.samples, self.models, self.notes = [], [], []
        self.viol = []
        self.unrepeated = 0
        self.known = load_known(pid)
        self.skips = {}
        self.counts = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------- models
    def bg(self, fn, *a, **kw):
        """Run a model check beside the rest; finish() waits for it."""
        if not hasattr(self, "_pool"):
            from concurrent.futures import ThreadPoolExecutor
            self._pool = ThreadPoolExecutor(3)
            self._bg = []
        self._bg.append(self._pool.submit(fn, *a, **kw))

    def join(self):
        for f in getattr(self, "_bg", []):
            f.result()
        self._bg = []

    def model(self, module, cfg, what, expect=None, workers=4, timeout=600, heap="4g", extra=()):
        """Model-check a specification.  expect: name of the property a deliberately wrong
        variant of the model must violate (shows the property is not vacuous)."""
        r = core.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, extra=extra)
        if expect is None:
            core.tlc_ok(r, what)
        elif r["ok"] or expect not in r["out"]:
            raise CheckError(f"{what}: the wrong variant was not refuted\n{r['out'][-2000:]}")
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"model": what, "module": module, "distinct_states": r["distinct"],
                            "states_generated": r["generated"], "refuted_as_expected": expect,
                            "wall_s": round(r["wall"], 1)})
        log(f"[{self.pid}] model {what}: {r['distinct']} states, {r['wall']:.1f}s")
        return r

    # ------------------------------------------------------------- traces
    def traces(self, module, items, rerun=None, tries=8, consts="", label="", canary=None, per_reason=3,
               only=None):
        """items: [(job, events)].  rerun(job) -> events (or list of event lists) of a new run."""
        rej, st = core.trace_check(module, [e for _, e in items], consts)
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.ntraces += len(items)
        self.events += st["events"]
        log(f"[{self.pid}] {label or module}: {len(items)} traces, {st['events']} events, "
            f"{len(rej)} rejected, {st['wall']:.1f}s" + (f", cut short {st['skips']}" if st.get("skips") else ""))
        for what, n in st.get("counts", {}).items():
            self.counts[what] = self.counts.get(what, 0) + n
        for why, n in st.get("skips", {}).items():
            self.skips[why] = self.skips.get(why, 0) + n
        if only:
            rej = [r for r in rej if only(r)]
        if len(self.samples) < 4 and items:
            s = items[len(items) // 2]
            self.samples.append(clip({"module": module, "kind": label, "trace": s[1][:4]}))
        seen = {}
        for r in rej:
            if seen.get(r["why"], 0) >= per_reason:
                continue
            seen[r["why"]] = seen.get(r["why"], 0) + 1
            job, ev = items[r["tid"]]
            if rerun is None:
                ok = core.trace_check(module, [ev], consts)[0]
                new, why = ev, (ok[0]["why"] if ok else None)
            else:
                why = None
                for _ in range(tries):
                    new = rerun(job)
                    new = new if new and isinstance(new[0], list) else [new]
                    again = core.trace_check(module, new, consts)[0]
                    if only:
                        again = [a for a in again if only(a)]
                    if again:
                        why, new = again[0]["why"], new[again[0]["tid"]]
                        break
            if why is None:
                self.unrepeated += 1
                log(f"[{self.pid}] not repeated: {r}")
                continue
            self.violation(f"{module}: {why}", {"module": module, "consts": consts, "job": job,
                                                "first": r, "trace": new})
        if self.viol and not self.thorough:
            raise Enough()
        if canary and items and not rej:
            self._canary(module, items, canary, consts)
        return rej

    def _canary(self, module, items, corrupt, consts):
        """Corrupt one recorded field of accepted traces: each must be rejected."""
        bad = []
        step = max(1, len(items) // 12)
        for job, ev in items[::step][:12]:
            c = corrupt(copy.deepcopy(ev), self.rnd)
            if c is not None:
                bad.append(c)
        if not bad:
            return
        rej, _ = core.trace_check(module, bad, consts, nproc=1)
        if len({r["tid"] for r in rej}) != len(bad):
            acc = [i for i in range(len(bad)) if i not in {r["tid"] for r in rej}]
            raise CheckError(f"{module}: a corrupted trace was accepted: {json.dumps(bad[acc[0]])[:1500]}")
        self.canaries += len(bad)

    # --------------------------------------------------------- violations
    def violation(self, what, replay):
        key = what
        for kf in self.known:
            if kf["match"] in json.dumps({"what": what, "replay": replay}, default=str):
                log(f"known finding hit: {kf['text']}")
                return
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replay", f"{self.pid}-{len(self.viol) + 1}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "seed": self.seed, "tier": self.tier, **replay},
                      f, default=str)
        self.viol.append({"what": what, "path": path})
        print(f"violated: {what}", flush=True)

    # ------------------------------------------------------------- ending
    def finish(self, level, extra=None, early=False):
        if not early:
            self.join()
        elif hasattr(self, "_pool"):
            self._pool.shutdown(wait=False, cancel_futures=True)
            core.stop_tlc()
        for kf in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {kf['text']}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.ntraces, "trace_events": self.events,
               "corrupted_traces_rejected": self.canaries, "models": self.models,
               "samples": self.samples or [{"note": "no trace"}], "unrepeated_rejections": self.unrepeated,
               "traces_judged_only_in_part": self.skips, **({"counted": self.counts} if self.counts else {})}
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.notes, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for v in self.viol:
            print(f"VIOLATION property={self.pid} replay={v['path']}")
        if not self.viol:
            print(f"{self.pid} held: {self.ntraces} traces, {self.events} events, {self.states} states, "
                  f"{time.time() - self.t0:.1f}s")
        return 1 if self.viol else 0


def clip(x, n=40):
    if isinstance(x, list):
        return [clip(v, n) for v in x[:n]]
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in x.items()}
    return x


def load_known(pid):
    """Lines 'finding: property=<id> match=<json substring> <text>' suppress exactly that violation."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and f"property={pid} " in line:
                rest = line.split(f"property={pid} ", 1)[1]
                m = rest.split(" ", 1)
                if m[0].startswith("match="):
                    out.append({"match": m[0][6:], "text": m[1]})
    return out


def main(argv):
    import checks
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in argv:
        return checks.replay(argv[argv.index("--replay") + 1])
    ctx = Ctx(pid, tier, seed)
    try:
        try:
            return ctx.finish(*checks.CHECKS[pid](ctx))
        except core.Dead as d:
            again = core.dead_again(d)
            if again is None:            # an overloaded machine: all of it once more
                log(f"[{pid}] {d}, none again")
                core.DEAD_LIMIT[0] = 10 ** 6
                ctx = Ctx(pid, tier, seed)
                return ctx.finish(*checks.CHECKS[pid](ctx))
            ctx.violation("runs of the real code crash or do not end",
                          {"job": again[0], "record": {k: v for k, v in again[1].items() if k in ("status", "err")}})
            return ctx.finish("model_checking", {}, early=True)
        except Enough:
            return ctx.finish("model_checking", {}, early=True)
    except Exception as e:
        if ctx.viol:
            log(f"[{pid}] after a violation: {e}")
            return ctx.finish("model_checking", {}, early=True)
        if isinstance(e, CheckError):
            log(f"[{pid}] machinery error: {e}")
        else:
            traceback.print_exc()
        return 3
    finally:
        core.cleanup()
