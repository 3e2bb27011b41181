#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough : build the simulator from /repo's working tree, search seeds, report.
Exit 0: held on everything explored. Exit 1 with 'VIOLATION property=<id> replay=<path>': broken.
Environment: VERIF_SEED (base seed), VERIF_BUDGET (seconds of simulation, overrides the tier's default)."""
import sys, os, subprocess, threading, time, json, re, collections, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
from props import PROPS, REAL, STUB
BUILD = os.environ.get("QDB_SIM_BUILD", os.path.join(HERE, "build"))
REPO = os.environ.get("QDB_REPO", "/repo")
BIN = os.path.join(BUILD, "qdbsim")

def build():
    env = dict(os.environ, QDB_REPO=REPO, QDB_SIM_BUILD=BUILD)
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run([sys.executable, os.path.join(HERE, "sim/genbuild.py")], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode == 0:
        r = subprocess.run(["ninja", "-C", os.path.join(HERE, "sim"), "-f", os.path.join(BUILD, "build.ninja")], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout.decode("latin1")[-3000:]); print("ERROR: the simulator does not build"); sys.exit(1)

class Worker:
    def __init__(s): s.start()
    def start(s): s.p = subprocess.Popen([BIN, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    def run(s, text, wall=60000):
        b = text.encode("latin1")
        try:
            s.p.stdin.write(b"RUN %d %d\n" % (len(b), wall) + b); s.p.stdin.flush()
            h = s.p.stdout.readline().split()
            return s.p.stdout.read(int(h[1])).decode("latin1")
        except (BrokenPipeError, IndexError):
            try: s.p.kill()
            except OSError: pass
            s.start()
            return "outcome error\nclass harness\nmsg worker died\nEND\n"
    def stop(s):
        try: s.p.kill(); s.p.wait()
        except OSError: pass

def parse(t):
    d = {"fault": {}, "probe": {}, "note": {}, "log": [], "state": []}
    for l in t.split("\n"):
        if l.startswith("log "): d["log"].append(l[4:]); continue
        k, _, v = l.partition(" ")
        if k in ("fault", "probe"):
            n, _, c = v.rpartition(" ")
            try: d[k][n] = d[k].get(n, 0) + int(c)
            except ValueError: pass
        elif k == "state": d["state"].append(v)
        elif k == "note": a, _, b = v.partition(" "); d["note"][a] = b
        elif k: d.setdefault(k, v)
    if d.get("outcome") == "error" and d.get("msg", "").startswith("child died status"):
        # the process hosting the simulation was brought down by the code under test
        d["outcome"], d["class"] = "violation", "process-crash"
    return d

def plan_text(scen, seed, knobs):
    return "scenario %s\nseed %d\n%s" % (scen, seed, "".join("knob %s %s\n" % (k, v) for k, v in sorted(knobs.items())))

def expand(scen, seed, knobs):
    r = subprocess.run([BIN, "gen", scen, str(seed)] + ["%s=%s" % kv for kv in sorted(knobs.items())], stdout=subprocess.PIPE)
    return r.stdout.decode("latin1")

def fresh(text, wall=120):
    """run in a new process"""
    import tempfile
    f = tempfile.NamedTemporaryFile("w", suffix=".plan", delete=False, encoding="latin1")
    f.write(text); f.close()
    try:
        try: r = subprocess.run([BIN, "run", f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=wall)
        except subprocess.TimeoutExpired: return {"outcome": "timeout"}
        t = r.stdout.decode("latin1")
        if not t.endswith("END\n"): t += "outcome error\nclass harness\nmsg child died status %d\nEND\n" % r.returncode
        return parse(t)
    finally: os.unlink(f.name)

def known(prop=None):
    """entries of the known-findings file: dict(property, kind, id, match, plan, text)"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if not os.path.exists(p): return out
    for l in open(p):
        l = l.strip()
        if not l.startswith("finding:"): continue
        m = re.match(r"finding: property=(\S+) id=(\S+)(?: plan=(\S+))?(?: match=/(.*?)/)? :: (.*)$", l)
        if not m: continue
        e = dict(property=m.group(1), id=m.group(2), plan=m.group(3), match=m.group(4), text=m.group(5))
        out.append(e)
    return out

def matches(e, d):
    return bool(e["match"]) and d.get("outcome") == "violation" and re.search(e["match"], "%s: %s" % (d.get("class"), d.get("msg", ""))) is not None

def minimise(text, cls, pool, limit):
    """ddmin over the event lines of an explicit plan; every kept candidate fails with the same class"""
    head = [l for l in text.split("\n") if l and not l.startswith("ev ")]
    evs = [l for l in text.split("\n") if l.startswith("ev ")]
    t0 = time.time()
    tried = 0
    def fails(cands):
        nonlocal tried
        tried += len(cands)
        res = [None] * len(cands); it = iter(range(len(cands))); lk = threading.Lock()
        def th(w):
            while True:
                with lk:
                    i = next(it, None)
                if i is None or time.time() - t0 > limit: return
                d = parse(w.run("\n".join(head + cands[i]) + "\n", 30000))
                res[i] = d.get("outcome") == "violation" and d.get("class") == cls
        ts = [threading.Thread(target=th, args=(w,)) for w in pool]
        [t.start() for t in ts]; [t.join() for t in ts]
        return res
    n = 2
    while len(evs) >= 1 and time.time() - t0 < limit:
        n = min(n, len(evs))
        size = (len(evs) + n - 1) // n
        parts = [(i, min(i + size, len(evs))) for i in range(0, len(evs), size)]
        cands = [evs[:a] + evs[b:] for a, b in parts]
        r = fails(cands)
        good = [i for i in range(len(parts)) if r[i]]
        if good:
            if len(good) > 1:   # try to drop all of them together
                keep = [x for i, (a, b) in enumerate(parts) if i not in good for x in evs[a:b]]
                if fails([keep])[0]: evs = keep; n = max(2, n - len(good)); continue
            evs = cands[good[0]]; n = max(2, n - 1)
        elif size == 1: break
        else: n = min(len(evs), n * 2)
    return "\n".join(head + evs) + "\n", tried

def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1") or 1)
    T0 = time.time()
    build()
    tb = time.time() - T0
    P = PROPS[prop]
    work = P["work"]
    budget = float(os.environ.get("VERIF_BUDGET") or (P.get("quick", 40) if tier == "quick" else P.get("thorough", 600)))
    if tier == "quick": budget = min(budget, max(20, 800 - tb))
    nw = min(8, os.cpu_count() or 8)
    pool = [Worker() for _ in range(nw)]
    kf = known()
    findings = []
    for e in kf:
        if e["property"] != prop or not e["plan"]: continue
        d = parse(pool[0].run(open(os.path.join(HERE, e["plan"]), encoding="latin1").read()))
        if matches(e, d) or d.get("note", {}).get("finding") == e["id"]: findings.append(e); print("KNOWN-FINDING: property=%s %s: %s" % (prop, e["id"], e["text"])); sys.stdout.flush()
    # ---- search
    t0 = time.time()
    total = collections.Counter(); faults = collections.Counter(); probes = collections.Counter(); outcomes = collections.Counter()
    scheds = set(); states = set(); simtime = 0.0; viol = []; suppressed = collections.Counter(); trivial = 0
    perscen = collections.Counter(); samples = []
    lk = threading.Lock(); stop = threading.Event()
    # weights are shares of time: the next run belongs to the workload which got least of its share so far
    spent = [0.0] * len(work); started = [0] * len(work); inflight = [0] * len(work); finished = [0] * len(work)
    def nxt():
        with lk:
            def load(k):
                est = spent[k] / finished[k] if finished[k] else 0.02
                return (spent[k] + inflight[k] * est) / work[k].get("weight", 1)
            k = min(range(len(work)), key=load)
            i = started[k]; started[k] += 1; inflight[k] += 1
        w = work[k]
        scen = w["scenario"]
        seed = int(hashlib.sha256(("%s/%s/%d/%d" % (scen, w.get("name", ""), base, i)).encode()).hexdigest()[:12], 16)
        return k, w, scen, seed
    def th(wk):
        nonlocal simtime, trivial
        while not stop.is_set() and time.time() - t0 < budget:
            k, w, scen, seed = nxt()
            t1 = time.time()
            d = parse(wk.run(plan_text(scen, seed, w.get("knobs", {})), 60000))
            with lk:
                spent[k] += time.time() - t1; finished[k] += 1; inflight[k] -= 1
                perscen[scen] += 1
                outcomes[d.get("outcome", "?")] += 1
                total["runs"] += 1
                total["switches"] += int(d.get("switches", 0)); total["steps"] += int(d.get("steps", 0))
                simtime += float(d.get("simtime", 0) or 0)
                if d.get("sched"):
                    if int(d.get("switches", 0)) < 20: trivial += 1
                    else: scheds.add(d["sched"])
                states.update(d["state"])
                for k, v in d["fault"].items(): faults[k] += v
                for k, v in d["probe"].items(): probes[k] += v
                if len(samples) < 4 and d.get("outcome") == "ok": samples.append({"scenario": scen, "seed": seed, "hash": d.get("hash"), "switches": int(d.get("switches", 0)), "simulated_s": float(d.get("simtime", 0)), "faults": d["fault"]})
                if d.get("outcome") == "violation":
                    e = next((e for e in kf if matches(e, d)), None)
                    if e: suppressed[e["id"]] += 1
                    else:
                        viol.append((w, scen, seed, d))
                        if len(viol) >= 12: stop.set()
                elif d.get("outcome") == "error":
                    if outcomes["error"] <= 3: print("harness error in %s seed %d: %s" % (scen, seed, d.get("msg")))
            if viol and time.time() - tv[0] > 3: stop.set()
            if not viol: tv[0] = time.time()
    tv = [time.time()]
    ts = [threading.Thread(target=th, args=(w,)) for w in pool]
    [t.start() for t in ts]; [t.join() for t in ts]
    wall = time.time() - t0
    for i, c in suppressed.items():
        e = next(e for e in kf if e["id"] == i)
        if e not in findings: findings.append(e); print("KNOWN-FINDING: property=%s %s: %s" % (prop, e["id"], e["text"]))
    # ---- confirm, minimise, report
    reported = None; flaky = 0
    for w, scen, seed, d in sorted(viol, key=lambda v: int(v[3].get("switches", 0))):
        text = expand(scen, seed, w.get("knobs", {}))
        a = parse(pool[0].run(text)); b = fresh(text)
        same = all(x.get("outcome") == "violation" and x.get("class") == d["class"] for x in (a, b))
        exact = same and a.get("hash") == b.get("hash") == d.get("hash")
        if not same: flaky += 1; print("not reproducible: %s seed %d class %s (%s / %s)" % (scen, seed, d.get("class"), a.get("outcome"), b.get("outcome"))); continue
        if not exact: print("note: replay of %s seed %d differs in its event hash" % (scen, seed))
        small, tried = minimise(text, d["class"], pool, 60 if tier == "quick" else 180)
        m = parse(pool[0].run(small)); f = fresh(small)
        if not (f.get("outcome") == "violation" and f.get("class") == d["class"]): small, m, f = text, a, b
        os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
        path = os.path.join(HERE, "evidence", "replays", "%s-%s-%d.plan" % (prop, scen, seed))
        tr = "".join("trace %s\n" % l for l in f.get("log", [])[-40:])
        open(path, "w", encoding="latin1").write(small + "property %s\nclass %s\nmsg %s\nhash %s\n%s" % (prop, f.get("class"), f.get("msg", "").replace("\n", " "), f.get("hash"), tr))
        print("violation: scenario %s seed %d class %s: %s" % (scen, seed, f.get("class"), f.get("msg", "")[:1500]))
        print("minimised to %d of %d events (%d candidate runs); replay: %s %s run %s" % (small.count("\nev "), text.count("\nev "), tried, "QDBSIM_TRACE=1", BIN, path))
        reported = dict(scenario=scen, seed=seed, cls=f.get("class"), msg=f.get("msg", "")[:600], replay=path, exact=exact)
        break
    [w.stop() for w in pool]
    cov = dict(
        evaluations=total["runs"], distinct_nontrivial=len(scheds),
        rule="one evaluation is one simulated execution, generated from its seed (workload, configuration, faults and schedule); distinct: different sequence of scheduling decisions (hash over the order in which threads ran); trivial: fewer than 20 context switches",
        samples=samples, trivial_runs=trivial, distinct_model_states=len(states), states_measure=P.get("states", "hash of the reference model's contents (or of the component's abstract state) sampled before every operation"),
        runs_per_hour=int(total["runs"] / wall * 3600) if wall else 0, simulated_seconds=round(simtime, 1), context_switches=total["switches"], instrumented_steps=total["steps"],
        fault_kinds=dict(faults), probes=dict(probes), outcomes=dict(outcomes), runs_per_scenario=dict(perscen),
        real_components=REAL, stubbed_components=STUB, base_seed=base, workers=nw, build_s=round(tb, 1), not_reproducible=flaky, known_findings=[e["id"] for e in findings])
    ev = dict(property=prop, tier=tier, seed=base, level="exploration", coverage=cov,
        assumptions=P.get("assumptions", []), wall_s=round(time.time() - T0, 1), violations=[reported] if reported else [])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d runs (%s), %d distinct schedules, %.0f simulated s, %.1f s build, %.1f s search" % (prop, tier, total["runs"], dict(perscen), len(scheds), simtime, tb, wall))
    if outcomes["ok"] == 0 and not reported: print("ERROR: no run completed"); sys.exit(1)
    if reported:
        print("VIOLATION property=%s replay=%s" % (prop, reported["replay"])); sys.exit(1)
    sys.exit(0)
if __name__ == "__main__": main()
