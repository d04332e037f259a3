#!/usr/bin/env python3
"""Seeded search over simulated runs of one property.

  check.py PROP [--tier quick|thorough]   search; exit 0, or 1 with a VIOLATION line
  check.py replay FILE                    re-run a replay file exactly; exit 1 if it fails the same way

Any other ending (2: the simulator could not be built, 3: trouble in the
machinery itself) is an error of the check and says so on stderr.
"""
import copy, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
import plan

KNOWN = os.path.join(VERIF, "known-findings.jsonl")
CRASH = re.compile(r"^(panic:|fatal error:|runtime: |SIG[A-Z]+:)", re.M)


class Trouble(Exception):
    pass


def worker_env(refs):
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "SIM_REFS": refs, "GOTRACEBACK": "single", "GODEBUG": ""}
    return e


class Sim:
    def __init__(self, binp, refs):
        self.bin, self.env = binp, worker_env(refs)
        self.stop = threading.Event()
        self.procs = set()
        self.lock = threading.Lock()

    def call(self, args, stdin=None, timeout=240):
        p = subprocess.Popen([self.bin] + [str(a) for a in args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=self.env, cwd="/")
        with self.lock:
            self.procs.add(p)
        try:
            o, e = p.communicate(stdin.encode() if stdin else b"", timeout=timeout)
            timed = False
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            timed = True
        finally:
            with self.lock:
                self.procs.discard(p)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), timed

    def kill_all(self):
        with self.lock:
            for p in list(self.procs):
                p.kill()

    def crash_of(self, rc, err):
        """A crash of the code under test, as (class, detail), or None."""
        if rc in (0, 3) or rc < 0 and rc != -6:
            return None
        m = CRASH.search(err)
        if not m:
            return None
        at = err[m.start():]
        head = at.splitlines()[0][:300]
        where = [l.strip() for l in at.splitlines() if "stockindicator/" in l and "zz_verifsim" not in l and ".go:" not in l]
        head = re.sub(r"0x[0-9a-f]+", "0x..", head)
        return "crash", (head + (" in " + where[0][:200] if where else "")).strip()

    def batch(self, prop, seed, start, count, size, samples=0):
        """Runs start..start+count-1. Returns (lines, failure, next): failure is
        (kind, line-or-None, idx)."""
        lines = []
        rc, o, err, timed = self.call(["batch", prop, seed, start, count, size, samples])
        begun, done = None, False
        for ln in o.splitlines():
            try:
                d = json.loads(ln)
            except ValueError:
                continue
            if "begin" in d:
                begun = d["begin"]
            elif "done" in d:
                done = True
            elif "h" in d:
                begun = None
                lines.append(d)
        if timed:
            raise Trouble("watchdog: run %s of %s seed %s did not end" % (begun, prop, seed))
        if self.stop.is_set():
            return lines, None, None
        if done and rc == 0:
            last = lines[-1]
            if last.get("fail"):
                return lines, ("fail", last, last["i"]), last["i"] + 1
            return lines, None, last["i"] + 1
        c = self.crash_of(rc, err)
        if c and begun is not None:
            return lines, ("crash", {"i": begun, "fail": {"class": c[0], "detail": c[1]}}, begun), begun + 1
        raise Trouble("worker ended with %s at run %s of %s: %s" % (rc, begun, prop, err[-1500:]))

    def gen(self, prop, seed, idx, size):
        rc, o, err, timed = self.call(["gen", prop, seed, idx, size])
        if rc:
            raise Trouble("gen: " + err[-800:])
        return json.loads(o)

    def one(self, specs, timeout=240):
        """Runs specs one after another in a fresh process: the outcome of the last."""
        rc, o, err, timed = self.call(["one"], json.dumps(specs), timeout)
        begun, res = None, None
        n = 0
        for ln in o.splitlines():
            try:
                d = json.loads(ln)
            except ValueError:
                continue
            if "begin" in d:
                begun = d["begin"]
                n += 1
            elif "h" in d:
                res, begun = d, None
        if timed:
            return {"class": "watchdog"}
        if res is not None and rc == 0:
            f = res.get("fail") or {}
            return {"class": f.get("class"), "detail": f.get("detail"), "h": res["h"], "ev": res["ev"], "y": res["y"],
                    "last": n == len(specs), "line": res}
        c = self.crash_of(rc, err)
        if c:
            return {"class": c[0], "detail": c[1], "h": None, "ev": None, "y": None, "last": n == len(specs), "line": None}
        return {"class": "trouble", "detail": "%s %s" % (rc, err[-500:])}


# ------------------------------------------------------------------ minimiser

def norm(cls):
    return re.sub(r"\d+", "#", cls or "")


class Minimiser:
    def __init__(self, sim, specs, cls, wall):
        self.sim, self.specs, self.cls = sim, specs, norm(cls)
        self.end = time.time() + wall
        self.tries = 0

    def bad(self, specs):
        if time.time() > self.end:
            return False
        self.tries += 1
        r = self.sim.one(specs, timeout=max(5, min(60, self.end - time.time() + 5)))
        return norm(r.get("class")) == self.cls and r.get("last", False)

    def with_last(self, spec):
        return self.specs[:-1] + [spec]

    def run(self):
        self.prefix()
        self.schedule()
        self.workload()
        self.schedule()
        return self.specs

    def prefix(self):
        pre = self.specs[:-1]
        n = max(1, len(pre) // 2)
        while pre and n >= 1:
            i, cut = 0, False
            while i < len(pre):
                cand = pre[:i] + pre[i + n:]
                if self.bad(cand + [self.specs[-1]]):
                    pre, cut = cand, True
                else:
                    i += n
            if n == 1 and not cut:
                break
            n = max(1, n // 2)
        self.specs = pre + [self.specs[-1]]

    def schedule(self):
        s = self.specs[-1]
        if not s["sched"].get("replay"):
            # a crash leaves no recorded decisions; try simpler deciders
            for pick, mean in ((0, 0), (0, None), (None, 0)):
                c = copy.deepcopy(s)
                if pick is not None:
                    c["sched"]["pick"] = pick
                if mean is not None:
                    c["sched"]["mean"] = mean
                if self.bad(self.with_last(c)):
                    s = c
                    break
            self.specs = self.with_last(s)
            return
        for key in ("pre", "picks"):
            s = copy.deepcopy(self.specs[-1])
            xs = s["sched"].get(key) or []
            # none at all, then a prefix, then chunks
            cand = copy.deepcopy(s)
            cand["sched"][key] = []
            if xs and self.bad(self.with_last(cand)):
                self.specs = self.with_last(cand)
                continue
            lo, hi = 0, len(xs)
            while hi - lo > 1:
                mid = (lo + hi) // 2
                cand = copy.deepcopy(s)
                cand["sched"][key] = xs[:mid]
                if self.bad(self.with_last(cand)):
                    hi = mid
                else:
                    lo = mid
                if time.time() > self.end:
                    break
            cand = copy.deepcopy(s)
            cand["sched"][key] = xs[:hi]
            if hi < len(xs) and self.bad(self.with_last(cand)):
                xs = xs[:hi]
                s = cand
            n = max(1, len(xs) // 2)
            while n >= 1 and time.time() < self.end and len(xs) <= 4000:
                i = 0
                while i < len(xs):
                    if key == "pre":
                        c2 = xs[:i] + xs[i + n:]
                    else:
                        if not any(xs[i:i + n]):
                            i += n
                            continue
                        c2 = xs[:i] + [0] * len(xs[i:i + n]) + xs[i + n:]
                    cand = copy.deepcopy(s)
                    cand["sched"][key] = c2
                    if self.bad(self.with_last(cand)):
                        xs, s = c2, cand
                        if key == "picks":
                            i += n
                    else:
                        i += n
                    if time.time() > self.end:
                        break
                n //= 2
            if key == "picks":
                while xs and xs[-1] == 0:
                    xs = xs[:-1]
                s["sched"][key] = xs
                if not self.bad(self.with_last(s)):
                    continue
            self.specs = self.with_last(s)

    def workload(self):
        for _ in range(4):
            before = json.dumps(self.specs[-1]["w"])
            self.walk([])
            if json.dumps(self.specs[-1]["w"]) == before or time.time() > self.end:
                break

    def at(self, w, path):
        for p in path:
            w = w[p]
        return w

    def attempt(self, path, value):
        s = copy.deepcopy(self.specs[-1])
        if path:
            self.at(s["w"], path[:-1])[path[-1]] = value
        else:
            s["w"] = value
        if self.bad(self.with_last(s)):
            self.specs = self.with_last(s)
            return True
        return False

    def walk(self, path):
        if time.time() > self.end:
            return
        v = self.at(self.specs[-1]["w"], path)
        if isinstance(v, dict):
            for k in sorted(v):
                self.walk(path + [k])
        elif isinstance(v, list):
            n = max(1, len(v) // 2)
            while n >= 1:
                i = 0
                while i < len(self.at(self.specs[-1]["w"], path)):
                    cur = self.at(self.specs[-1]["w"], path)
                    if not self.attempt(path, cur[:i] + cur[i + n:]):
                        i += n
                    if time.time() > self.end:
                        return
                n //= 2
            for i in range(len(self.at(self.specs[-1]["w"], path))):
                if i < 40:
                    self.walk(path + [i])
        elif isinstance(v, bool):
            if v:
                self.attempt(path, False)
        elif isinstance(v, (int, float)) and v:
            for c in (0, 1):
                if c != v and abs(c) < abs(v) and self.attempt(path, c):
                    return
            lo, cur = 0, v
            for _ in range(12):
                mid = int((lo + cur) / 2)
                if mid in (lo, cur):
                    break
                if self.attempt(path, mid):
                    cur = mid
                else:
                    lo = mid


# ---------------------------------------------------------------------- search

def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln and not ln.startswith("#"):
                d = json.loads(ln)
                if d["property"] == prop and d["status"] == "known":
                    out.append(d)
    return out


def is_known(known, spec, fail):
    for k in known:
        if k["class"] == fail["class"] and json.dumps(k["spec"]["w"], sort_keys=True) == json.dumps(spec["w"], sort_keys=True):
            return True
    return False


def report(sim, prop, seed, size, start, idx, fline, tier, t0):
    """Confirms, minimises and writes down one violation. Returns the replay path."""
    cls = fline["fail"]["class"]
    spec = fline.get("spec")
    g = sim.gen(prop, seed, idx, size)
    tried = []
    cand = [[spec]] if spec else []
    cand.append([g])
    for specs in cand:
        r = sim.one(specs)
        tried.append(r.get("class"))
        if norm(r.get("class")) == norm(cls):
            break
    else:
        # it needs what earlier runs left behind in the process
        pre = [sim.gen(prop, seed, i, size) for i in range(start, idx)]
        specs = pre + [spec or g]
        r = sim.one(specs)
        tried.append(r.get("class"))
        if r.get("class") and not r.get("last", True) and r["class"] not in ("trouble", "watchdog"):
            cls = r["class"]  # an earlier run of the prefix fails by itself
            k = r["line"]["i"] - start
            specs = specs[:k + 1]
            r = sim.one(specs)
        elif norm(r.get("class")) != norm(cls):
            specs = pre + [g]
            r = sim.one(specs)
            tried.append(r.get("class"))
        if norm(r.get("class")) != norm(cls):
            raise Trouble("a violation (%s: %s, run %d) did not replay: %s" % (cls, fline["fail"]["detail"], idx, tried))
    before = sum(len(json.dumps(s["w"])) for s in specs), len(specs[-1]["sched"].get("pre") or []), len(specs[-1]["sched"].get("picks") or [])
    m = Minimiser(sim, specs, cls, plan.MINIMISE_S)
    try:
        small = m.run()
    finally:
        pass
    r1, r2 = sim.one(small), sim.one(small)
    if norm(r1.get("class")) != norm(cls) or (r1.get("h"), r1.get("ev"), r1.get("detail")) != (r2.get("h"), r2.get("ev"), r2.get("detail")):
        small = specs
        r1, r2 = sim.one(small), sim.one(small)
        if norm(r1.get("class")) != norm(cls) or (r1.get("h"), r1.get("ev")) != (r2.get("h"), r2.get("ev")):
            raise Trouble("a violation (%s) did not replay exactly" % cls)
    after = sum(len(json.dumps(s["w"])) for s in small), len(small[-1]["sched"].get("pre") or []), len(small[-1]["sched"].get("picks") or [])
    out = {"property": prop, "class": r1["class"], "detail": r1["detail"], "seed": seed, "run": idx, "size": size, "tier": tier,
           "expect": {"h": r1.get("h"), "ev": r1.get("ev"), "y": r1.get("y")},
           "minimised": {"executions": m.tries, "workload_bytes": [before[0], after[0]], "preemptions": [before[1], after[1]],
                         "decisions": [before[2], after[2]]},
           "specs": small, "faults": (r1.get("line") or {}).get("f"), "trace": (r1.get("line") or {}).get("log")}
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    key = hashlib.sha1(json.dumps(out["specs"], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, key))
    with open(path, "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    return path, out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = plan.PLAN[prop]
    tag = prop if os.environ.get("SIM_PRIVATE") else "main"
    binp, binfo = B.build(tag)
    refs = tempfile.mkdtemp(prefix="refs-", dir=B.BUILD)
    sim = Sim(binp, refs)
    try:
        return _check(prop, tier, seed, cfg, sim, binfo, t0)
    finally:
        sim.stop.set()
        sim.kill_all()
        shutil.rmtree(refs, ignore_errors=True)


def _check(prop, tier, seed, cfg, sim, binfo, t0):
    known = load_known(prop)
    for k in known:
        r = sim.one([k["spec"]])
        if r.get("class") == k["class"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        elif r.get("class") in ("trouble", "watchdog"):
            raise Trouble("known finding: %s" % r)
    small, big, chunk, cap = cfg[tier]
    jobs = []
    for i in range(0, small, chunk):
        jobs.append(("small", i, min(chunk, small - i)))
    bc = max(8, chunk // 4)
    bigs = [("big", i, min(bc, big - i)) for i in range(0, big, bc)]
    # big runs spread evenly between the small ones
    if bigs:
        k = max(1, len(jobs) // len(bigs))
        mixed = []
        for j, x in enumerate(bigs):
            mixed += jobs[j * k:(j + 1) * k] + [x]
        jobs = mixed + jobs[len(bigs) * k:]
    agg = {"runs": 0, "nt": 0, "y": 0, "st": 0, "sw": 0, "pre": 0, "mono": 0, "gmax": 0, "qmax": 0, "of": 0, "dirty": 0,
           "faults": {}, "probes": {}}
    dist, scheds, works, hists = set(), set(), set(), set()
    samples = []
    fails, troubles = [], []
    lock = threading.Lock()
    tsearch = time.time()
    end = t0 + cap
    stopped = [False]

    def add(ls):
        with lock:
            for d in ls:
                agg["runs"] += 1
                for k in ("y", "st", "sw", "pre", "mono"):
                    agg[k] += d[k]
                agg["gmax"] = max(agg["gmax"], d["g"])
                agg["qmax"] = max(agg["qmax"], d["q"])
                agg["of"] += bool(d.get("of"))
                agg["dirty"] += bool(d.get("dirty"))
                for a, b in (("faults", "f"), ("probes", "p")):
                    for k, v in (d.get(b) or {}).items():
                        agg[a][k] = agg[a].get(k, 0) + v
                scheds.add(d["h"])
                works.add(d["wh"])
                hists.add(d["ev"])
                if d["nt"]:
                    agg["nt"] += 1
                    dist.add(hash((d["wh"], d["h"], d["ev"])))
                if d.get("spec") and len(samples) < 4:
                    s = d["spec"]
                    samples.append({"run": d["i"], "workload": s["w"], "schedule": {k: v for k, v in s["sched"].items() if k not in ("picks", "pre", "replay")},
                                    "interleaving": d["h"], "preemptions": d["pre"], "switches": d["sw"], "faults": d.get("f") or {}, "simulated_ns": d["mono"]})

    def chunkrun(size, start, count, si):
        i, stop = start, start + count
        while i < stop:
            if sim.stop.is_set() or time.time() > end:
                stopped[0] = stopped[0] or time.time() > end
                return
            first = i
            try:
                ls, f, nxt = sim.batch(prop, seed, i, stop - i, size, 1 if si else 0)
            except Trouble as e:
                with lock:
                    troubles.append(str(e))
                sim.stop.set()
                return
            add(ls)
            if f:
                with lock:
                    fails.append((size, first, f[2], f[1]))
                sim.stop.set()
                return
            if nxt is None:
                return
            i = nxt

    workers = int(os.environ.get("SIM_WORKERS", "8"))
    with ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(chunkrun, s, a, c, n in (0, len(jobs) // 3, len(jobs) // 2, len(jobs) - 1)) for n, (s, a, c) in enumerate(jobs)]
        for f in as_completed(fs):
            f.result()
    search_s = time.time() - tsearch
    sim.stop.clear()
    fails = [f for f in fails if not (f[3].get("spec") and is_known(known, f[3]["spec"], f[3]["fail"]))]
    nviol = 0
    rpath = None
    rinfo = None
    if fails:
        fails.sort(key=lambda f: (f[0] == "big", f[2]))
        err = None
        for size, first, idx, fl in fails:
            try:
                rpath, rinfo = report(sim, prop, seed, size, first, idx, fl, tier, t0)
                nviol = 1
                break
            except Trouble as e:
                err = e
        if not rpath:
            raise err
    elif troubles:
        raise Trouble(troubles[0])
    # the same seeds again, in other processes: every event log must be equal
    det = {"runs": 0, "processes": 0}
    if not fails:
        n = cfg["det"]
        for size in ("small", "big"):
            per = max(1, n // 6)
            spans = [(k * per, per) for k in range(6)] if size == "small" else [(0, max(1, per // 2))]
            def agreed(runs):
                # every run came out twice the same
                cols = zip(*[[json.dumps(o, sort_keys=True) for o in r] for r in runs])
                return all(max(map(c.count, c)) > 1 for c in cols)
            def pair(sp):
                a, c = sp
                x = sim.batch(prop, seed, a, c, size)[0]
                y = sim.batch(prop, seed, a, c, size)[0]
                # C25 goes on for longer where the memory in use, which the real
                # allocator decides, has grown: two executions that went equally far
                # must be equal
                if prop == "C25" and x != y and len(x) == len(y):
                    runs = [x, y]
                    while len(runs) < 6 and not agreed(runs):
                        runs.append(sim.batch(prop, seed, a, c, size)[0])
                    if agreed(runs):
                        y = x
                return x, y
            with ThreadPoolExecutor(8 if size == "small" else 2) as ex:
                for x, y in ex.map(pair, spans):
                    if x != y:
                        bad = [(a, b) for a, b in zip(x, y) if a != b][:1] or [(len(x), len(y))]
                        raise Trouble("two executions of one seed differ: %s" % json.dumps(bad)[:1500])
                    det["runs"] += 2 * len(x)
                    det["processes"] += 2
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": agg["runs"], "distinct_nontrivial": len(dist),
              "rule": "One evaluation is one simulated run: (VERIF_SEED, run number) decides workload, faults, clocks and every scheduling choice. "
                      "Distinct: different (workload, interleaving hash over every context switch and preemption point, recorded history). Non-trivial: " + cfg["rule"],
              "samples": samples,
              "runs_nontrivial": agg["nt"],
              "distinct_workloads": len(works), "distinct_interleavings": len(scheds), "distinct_histories": len(hists),
              "runs_per_hour": int(agg["runs"] / max(search_s, 1e-3) * 3600),
              "search_s": round(search_s, 2),
              "planned_runs": small + big, "stopped_by_wall_cap": stopped[0],
              "simulated_time_s": round(agg["mono"] / 1e9, 3),
              "preemption_points_passed": agg["y"], "preemptions": agg["pre"], "context_switches": agg["sw"],
              "scheduling_steps": agg["st"], "most_goroutines_in_a_run": agg["gmax"], "most_runnable_at_once": agg["qmax"],
              "runs_past_the_recording_limit": agg["of"], "runs_ended_with_goroutines_abandoned_on_purpose": agg["dirty"],
              "faults_injected": dict(sorted(agg["faults"].items())),
              "conditions_reached": dict(sorted(agg["probes"].items())),
              "determinism": dict(det, note="each of these seeds executed twice in separate processes; the complete result lines (interleaving hash, history hash, counters) are equal"),
              "real_code": cfg["real"], "stubbed": cfg["stub"], "build": binfo,
          },
          "assumptions": plan.ASSUMPTIONS + cfg.get("assume", []),
          "wall_s": round(wall, 2), "violations": nviol}
    if not nviol and not det["runs"]:
        del ev["coverage"]["determinism"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)
    if nviol:
        print("%s: %s" % (rinfo["class"], rinfo["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, rpath))
        return 1
    if agg["runs"] == 0 or agg["nt"] == 0:
        raise Trouble("no non-trivial run")
    print("%s held: %d simulated runs (%d distinct non-trivial), %d interleavings, %.1f s (build %.1f s)" %
          (prop, agg["runs"], len(dist), len(scheds), wall, binfo["build_s"]))
    return 0


def replay(path):
    d = json.load(open(path))
    binp, _ = B.build("main")
    refs = tempfile.mkdtemp(prefix="refs-", dir=B.BUILD)
    try:
        r = Sim(binp, refs).one(d["specs"])
    finally:
        shutil.rmtree(refs, ignore_errors=True)
    if r.get("class") in ("trouble", "watchdog"):
        raise Trouble(str(r))
    if r.get("line"):
        for l in r["line"].get("log") or []:
            print("  " + l)
    same = norm(r.get("class")) == norm(d["class"])
    exact = same and {k: r.get(k) for k in ("h", "ev", "y")} == d["expect"]
    if r.get("class"):
        print("%s: %s" % (r["class"], r["detail"]))
        print("exact repetition of the recorded execution: %s" % ("yes" if exact else "no (the code or the simulator is not the one it was recorded with)"))
        print("VIOLATION property=%s replay=%s" % (d["property"], os.path.abspath(path)))
        return 1
    print("the recorded execution does not fail on this tree")
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "replay":
            return replay(a[1])
        if a and a[0] == "build":
            print(B.build("main"))
            return 0
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        if not a or a[0] not in plan.PLAN or tier not in ("quick", "thorough"):
            sys.stderr.write(__doc__)
            return 2
        return check(a[0], tier)
    except B.BuildError as e:
        sys.stderr.write("ERROR: the simulator does not build:\n%s\n" % str(e)[-4000:])
        return 2
    except Trouble as e:
        sys.stderr.write("ERROR: %s\n" % e)
        return 3


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
