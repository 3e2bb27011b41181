#!/usr/bin/env python3
"""Developer sweep: run seeds of a scenario on a pool of zygotes, print outcomes. sweep.py SCEN FROM TO [k=v...]"""
import sys, os, subprocess, threading, queue, collections, time
BIN = os.environ.get("QDBSIM", os.path.join(os.path.dirname(os.path.abspath(__file__)), "../build/qdbsim"))
class Worker:
    def __init__(s): s.p = subprocess.Popen([BIN, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    def run(s, text, wall=60000):
        b = text.encode()
        s.p.stdin.write(b"RUN %d %d\n" % (len(b), wall) + b); s.p.stdin.flush()
        h = s.p.stdout.readline().split()
        return s.p.stdout.read(int(h[1])).decode("latin1")
def parse(t):
    d = {"fault": {}, "probe": {}, "note": {}, "log": []}
    key = None
    for l in t.split("\n"):
        if l.startswith("log ") : d["log"].append(l[4:]); continue
        k, _, v = l.partition(" ")
        if k in ("fault", "probe"):
            n, _, name = v.rpartition(" "); 
            try: d[k][n] = d[k].get(n, 0) + int(name)
            except ValueError: pass
        elif k == "note": a, _, b = v.partition(" "); d["note"][a] = b
        elif k: d.setdefault(k, v)
    return d
if __name__ == "__main__":
    scen, a, b = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    kn = "".join("knob %s %s\n" % tuple(x.split("=", 1)) for x in sys.argv[4:])
    q = queue.Queue()
    for i in range(a, b): q.put(i)
    res = []; lk = threading.Lock()
    def th():
        w = Worker()
        while True:
            try: i = q.get_nowait()
            except queue.Empty: return
            t0 = time.time()
            r = w.run("scenario %s\nseed %d\n%s" % (scen, i, kn))
            with lk: res.append((i, parse(r), r, time.time() - t0))
    t0 = time.time()
    ts = [threading.Thread(target=th) for _ in range(8)]
    [t.start() for t in ts]; [t.join() for t in ts]
    c = collections.Counter((r[1].get("outcome"), r[1].get("class")) for r in res)
    print("%d runs in %.1fs" % (len(res), time.time() - t0))
    first = {}
    for i, d, raw, tt in sorted(res):
        k = (d.get("outcome"), d.get("class"))
        if k[0] != "ok": first.setdefault(k, []).append((i, d))
    for k, n in c.most_common(): print(n, k, [x[0] for x in first.get(k, [])][:12])
    for k, v in first.items():
        print("====", k, "seed", v[0][0]); print(v[0][1].get("msg", "")[:1500])
    tot = collections.Counter(); pr = collections.Counter()
    for i, d, raw, tt in res:
        for x, y in d["fault"].items(): tot[x] += y
        for x, y in d["probe"].items(): pr[x] += y
    print("faults", dict(tot)); print("probes", dict(pr))
    sl = sorted(res, key=lambda r: -r[3])[:3]
    print("slowest", [(s[0], round(s[3], 2)) for s in sl])
