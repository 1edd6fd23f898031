#!/usr/bin/env python3
"""check.py PROPERTY: builds the simulator from /repo's working tree and explores
seeded executions for one property.

  check.py C01                 the registered check (VERIF_TIER=quick|thorough, VERIF_SEED)
  check.py --replay FILE       repeat one recorded execution and print its trace tail
Exit 0: held on everything explored, 1: VIOLATION line printed, 2: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
WORKERS = 8
# runs per worker: (quick, thorough)
RUNS = {"default": (130, 4000)}
RUNS.update(json.load(open(os.path.join(HERE, "sim", "budget.json"))))
CAP = {"quick": 240.0, "thorough": 6600.0}   # wall-clock guard per worker, seconds
HANG = 150.0                                 # one run takes well under 2 s

ENV = dict(os.environ, GODEBUG="randseednop=0", GOMAXPROCS="1", GOGC="1600")


def log(*a):
    print(*a, flush=True)


class Sim:
    def __init__(self, tmp):
        self.tmp = tmp
        self.bin = os.path.join(tmp, "sim.test")
        self.n = 0

    def build(self):
        r = subprocess.run([os.path.join(HERE, "tools", "build.sh"), self.bin],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(self.bin):
            log(r.stdout[-6000:])
            log("check: the simulator does not build against /repo")
            sys.exit(2)
        if r.stdout.strip():
            log(r.stdout.strip()[-2000:])

    def spawn(self, **kv):
        self.n += 1
        out = os.path.join(self.tmp, "out%d.json" % self.n)
        cwd = os.path.join(self.tmp, "w%d" % self.n)
        os.mkdir(cwd)
        env = dict(ENV, SIM_OUT=out, TMPDIR=cwd)
        env.update({k: str(v) for k, v in kv.items()})
        lg = open(out + ".log", "w")
        p = subprocess.Popen([self.bin, "-test.run", "^TestWorker$", "-test.timeout", "0"],
                             env=env, stdout=lg, stderr=subprocess.STDOUT, cwd=cwd)
        return dict(p=p, out=out, cwd=cwd, t0=time.time(), cur=None, cur_t=time.time(), hang=False, cfg=kv)

    def poll(self, w):
        """True when the worker has ended; kills workers stuck in one run."""
        if w["p"].poll() is not None:
            return True
        try:
            c = open(w["out"] + ".cur").read()
        except OSError:
            c = None
        if c != w["cur"]:
            w["cur"], w["cur_t"] = c, time.time()
        if time.time() - w["cur_t"] > HANG:
            w["p"].kill()
            w["p"].wait()
            w["hang"] = True
            return True
        return False

    def wait(self, w):
        while not self.poll(w):
            time.sleep(0.02)
        return self.result(w)

    def result(self, w):
        try:
            return json.load(open(w["out"]))
        except (OSError, ValueError):
            return None

    def logtext(self, w):
        try:
            return open(w["out"] + ".log", errors="replace").read()
        except OSError:
            return ""

    def drop(self, w):
        shutil.rmtree(w["cwd"], ignore_errors=True)

    # ---- replays
    def replay_many(self, reps, trace=""):
        """Runs the given replays, returns [(key or None, hash, text, tail)]"""
        res = [None] * len(reps)
        todo = list(enumerate(reps))
        run = []
        while todo or run:
            while todo and len(run) < WORKERS:
                i, rp = todo.pop(0)
                f = os.path.join(self.tmp, "rp%d.json" % self.n)
                rp = dict(rp)
                rp.pop("trace_tail", None)
                json.dump(rp, open(f, "w"))
                kv = dict(SIM_MODE="replay", SIM_REPLAY=f)
                if trace:
                    kv["SIM_TRACE"] = trace
                run.append((i, rp, self.spawn(**kv)))
            for x in list(run):
                i, rp, w = x
                if not self.poll(w):
                    continue
                run.remove(x)
                o = self.result(w)
                if o is None:
                    k, what = crash_kind(self.logtext(w), w["hang"])
                    res[i] = (k, "", what, self.logtext(w).splitlines()[-300:])
                else:
                    keys = {v["key"]: v["what"] for v in (o.get("violations") or []) if v["property"] == rp["property"]}
                    k = o.get("key") or None
                    if rp.get("key") in keys:
                        k = rp["key"]
                    res[i] = (k, o.get("trace_hash", ""), keys.get(k, o.get("violation", "")), o.get("trace_tail") or [])
                self.drop(w)
            time.sleep(0.005)
        return res


def crash_kind(text, hang):
    """Classifies a worker that died without a result."""
    if hang:
        return "hang", "one simulated run does not end (moco loops without ever waiting)"
    m = re.search(r"^(panic: .*|fatal error: .*)$", text, re.M)
    if not m:
        return "harness", "worker ended without a result"
    head = m.group(1)
    body = text[m.start():]
    # the first goroutine stack is the one that panicked
    stack = body.split("\n\n")
    first = ""
    for part in stack:
        if part.lstrip().startswith("goroutine ") or "\ngoroutine " in part:
            first = part
            break
    frames = re.findall(r"^([\w./\-]+(?:\.\(\*?\w+\))?[\w./\-\[\]()*]*)\(", first, re.M)
    for f in frames:
        if f.startswith(("runtime.", "panic", "runtime/", "sync.", "internal/")):
            continue
        if f.startswith("github.com/cybozu-go/moco/"):
            return "panic", "moco panics: " + head + " in " + f
        if f.startswith("mocosim."):
            return "harness", head + " in " + f
    if "github.com/cybozu-go/moco/" in first and "mocosim." not in first.split("github.com/cybozu-go/moco/")[0]:
        return "panic", "moco panics: " + head
    return "harness", head


def minimise(sim, rp, key, budget=45.0):
    """ddmin over the fault list, keeping the violation key."""
    t0 = time.time()
    faults = rp.get("faults") or []
    tried = 0

    def test(cands):
        nonlocal tried
        tried += len(cands)
        rs = sim.replay_many([dict(rp, faults=c) for c in cands])
        return [r[0] == key for r in rs]

    n = 2
    while len(faults) >= 2 and time.time() - t0 < budget:
        size = max(1, len(faults) // n)
        chunks = [faults[i:i + size] for i in range(0, len(faults), size)]
        cands = list(chunks) + [[x for j, c in enumerate(chunks) if j != i for x in c] for i in range(len(chunks))]
        ok = test(cands)
        for c, good in zip(cands, ok):
            if good:
                faults = c
                n = max(2, n - 1) if len(c) > size else 2
                break
        else:
            if size == 1:
                break
            n = min(len(faults), 2 * n)
    if len(faults) == 1 and time.time() - t0 < budget and test([[]])[0]:
        faults = []
    return dict(rp, faults=faults), tried


def load_known(prop):
    known = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) replay=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known.append(dict(key=m.group(2), replay=os.path.join(HERE, m.group(3)), what=m.group(4)))
    return known


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in CAP:
        tier = "quick"
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="mocosim.")
    try:
        return run(prop, tier, vseed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def do_replay(path):
    tmp = tempfile.mkdtemp(prefix="mocosim.")
    try:
        sim = Sim(tmp)
        sim.build()
        rp = json.load(open(path))
        k, h, what, tail = sim.replay_many([rp], trace="tail")[0]
        for l in tail:
            log(l)
        log("replay: key=%s hash=%s (recorded key=%s hash=%s)" % (k, h, rp.get("key"), rp.get("trace_hash")))
        log("replay:", what)
        return 0 if k is None else 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, vseed, tmp):
    t0 = time.time()
    sim = Sim(tmp)
    sim.build()
    tb = time.time() - t0
    known = load_known(prop)
    kmap = {k["key"]: True for k in known}
    runs = RUNS.get(prop, RUNS["default"])[0 if tier == "quick" else 1]
    if os.environ.get("SIM_RUNS"):
        runs = int(os.environ["SIM_RUNS"])
    base = vseed * 1000003
    ws = [sim.spawn(SIM_MODE="explore", SIM_PROP=prop, SIM_SEED=base + i, SIM_STRIDE=WORKERS, SIM_RUNS=runs,
                    SIM_SECONDS=CAP[tier], SIM_MAXVIOL=1, SIM_KNOWN=json.dumps(kmap)) for i in range(WORKERS)]
    grace = None
    live = list(ws)
    while live:
        for w in list(live):
            if sim.poll(w):
                live.remove(w)
                o = sim.result(w)
                bad = o is None or any(v.get("key") not in kmap for v in (o.get("Viol") or []))
                if bad and grace is None:
                    grace = time.time() + 4
        if grace and time.time() > grace:
            for w in live:
                w["p"].kill()
                w["p"].wait()
                w["stopped"] = True
            live = []
        time.sleep(0.05)
    tot = dict(runs=0, steps=0, sim=0.0)
    agg = {"Probes": {}, "Faults": {}, "Counts": {}, "Others": {}}
    states, pairs, hashes, samples, harness = set(), set(), set(), [], []
    viols, crashes, knownseen = [], [], {}
    for w in ws:
        o = sim.result(w)
        if o is None:
            if w.get("stopped"):
                continue
            k, what = crash_kind(sim.logtext(w), w["hang"])
            try:
                seed = int(open(w["out"] + ".cur").read())
            except (OSError, ValueError):
                seed = None
            crashes.append((k, what, seed, sim.logtext(w)[:8000]))
            continue
        tot["runs"] += o["Runs"]
        tot["steps"] += o["Steps"]
        tot["sim"] += o["SimSec"]
        for n in agg:
            for k, v in (o.get(n) or {}).items():
                agg[n][k] = agg[n].get(k, 0) + v
        states.update(o.get("States") or [])
        pairs.update(o.get("Pairs") or [])
        hashes.update(o.get("Hashes") or [])
        samples += (o.get("Sample") or [])[:1]
        harness += o.get("Harness") or []
        for v in o.get("Viol") or []:
            if v.get("key") in kmap:
                knownseen.setdefault(v["key"], v)
            else:
                viols.append(v)
    explore_s = time.time() - t0 - tb
    # determinism: the first seeds again, in another process, twice
    det = None
    if not viols and not crashes:
        d = [sim.wait(sim.spawn(SIM_MODE="explore", SIM_PROP=prop, SIM_SEED=base, SIM_STRIDE=WORKERS, SIM_RUNS=4,
                                SIM_SECONDS=600, SIM_MAXVIOL=1000, SIM_KNOWN=json.dumps(kmap))) for _ in range(2)]
        det = all(d) and d[0]["Digest"] == d[1]["Digest"]
        if not det:
            log("check: note: two executions of the same seeds differ")
    rc = 0
    rep_dir = os.path.join(HERE, "replays")
    nviol = 0
    found = None
    if crashes and not viols:
        crashes.sort(key=lambda c: (c[0] == "harness", c[2] or 0))
        k, what, seed, text = crashes[0]
        if k == "harness":
            log(text[:5000])
            log("check: a worker died:", what, "seed", seed)
            rc = 2
        else:
            found = dict(property=prop, seed=seed, key=k, violation=what)
            r = sim.wait(sim.spawn(SIM_MODE="dump", SIM_PROP=prop, SIM_SEED=seed))
            if r:
                found = dict(r, key=k, violation=what)
            again = sim.replay_many([found])[0]
            if k == "hang" and again[0] != "hang":
                log("check: a worker was stuck at seed", seed, "but the run ends when repeated")
                found, rc = None, 2
            else:
                found["stack"] = text.splitlines()[:60]
    if viols:
        viols.sort(key=lambda v: v["seed"])
        v = viols[0]
        found = {k: v[k] for k in ("property", "seed", "config", "faults", "violation", "key", "trace_hash") if k in v}
    if found is not None:
        rc = 1
        nviol = max(1, len(viols))
        log("found: seed %s key %s: %s" % (found.get("seed"), found.get("key"), found.get("violation")))
        if "config" in found and found["key"] != "hang":
            small, tried = minimise(sim, found, found["key"])
            a = sim.replay_many([small, small], trace="tail")
            ok = [x for x in a if x and x[0] == found["key"]]
            if not ok:
                small = found
                a = sim.replay_many([small, small], trace="tail")
                ok = [x for x in a if x and x[0] == found["key"]]
            if ok:
                small = dict(small, trace_hash=ok[0][1], violation=ok[0][2])
                if ok[0][3]:
                    small["trace_tail"] = ok[0][3]
            log("minimised from %d to %d faults with %d replays; repeated %d of 2 times, %s" % (
                len(found.get("faults") or []), len(small.get("faults") or []), tried, len(ok),
                "identical" if len(ok) == 2 and ok[0][1] == ok[1][1] else "not identical"))
            found = small
        os.makedirs(rep_dir, exist_ok=True)
        name = "%s-%s.json" % (prop, found.get("seed"))
        path = os.path.join(rep_dir, name)
        with open(path, "w") as f:
            json.dump(found, f, indent=1)
        log("  what:", found.get("violation"))
        for x in found.get("faults") or []:
            log("  fault:", json.dumps(x))
        log("VIOLATION property=%s replay=%s" % (prop, path))
    elif harness:
        log("check: harness errors:", harness[:4])
        rc = 2
    # known findings: shown with their recorded replay
    kf = []
    for k in known:
        shown = k["key"] in knownseen
        if not shown and os.path.exists(k["replay"]):
            r = sim.replay_many([json.load(open(k["replay"]))])[0]
            shown = r[0] == k["key"]
        if shown:
            log("KNOWN-FINDING: property=%s key=%s %s" % (prop, k["key"], k["what"]))
        else:
            log("note: the known finding %s of %s did not show up" % (k["key"], prop))
        kf.append(dict(key=k["key"], reproduced=shown, seen_in_exploration=agg["Counts"].get("known_" + k["key"], 0)))
    wall = time.time() - t0
    comp = json.load(open(os.path.join(HERE, "sim", "components.json")))
    world = comp["world_of"].get(prop, "w1")
    ev = dict(property=prop, tier=tier, seed=vseed, level="exploration", wall_s=round(wall, 1), violations=nviol,
              assumptions=comp["assumptions"][world],
              coverage=dict(
                  evaluations=tot["runs"], distinct_nontrivial=len(hashes),
                  rule="One evaluation is one simulated run: a configuration, a client load, a schedule and a fault list drawn from one seed. "
                       "Non-trivial: at least one fault was injected and moco changed the simulated world at least ten times; distinct: different hash over the whole event trace.",
                  samples=samples[:2],
                  seeds=dict(first=base, count=tot["runs"], order="consecutive over %d workers" % WORKERS),
                  runs_per_hour=int(tot["runs"] / max(explore_s, .1) * 3600),
                  simulated_hours=round(tot["sim"] / 3600, 2), events=tot["steps"],
                  faults_injected=dict(sorted(agg["Faults"].items())),
                  distinct_abstract_states=len(states), distinct_event_pairs=len(pairs),
                  state_measure=comp["state_measure"],
                  activity=dict(sorted(agg["Counts"].items())), probes=dict(sorted(agg["Probes"].items())),
                  other_properties_seen=agg["Others"],
                  deterministic_repeat=det, known_findings=kf, harness_errors=len(harness),
                  components=comp["components"][world]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d runs, %d distinct non-trivial, %.1f simulated hours, %d events, %d states, build %.0f s, wall %.0f s, exit %d" % (
        prop, tier, tot["runs"], len(hashes), tot["sim"] / 3600, tot["steps"], len(states), tb, wall, rc))
    return rc


if __name__ == "__main__":
    sys.exit(main())
