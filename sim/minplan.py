#!/usr/bin/env python3
"""minplan.py SCEN SEED [k=v..] > plan : expand and minimise a failing seed (keeps the class)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
kn = dict(x.split("=", 1) for x in sys.argv[3:])
t = check.expand(sys.argv[1], int(sys.argv[2]), kn)
pool = [check.Worker() for _ in range(8)]
d = check.parse(pool[0].run(t))
sys.stderr.write("%s %s %s\n" % (d.get("outcome"), d.get("class"), d.get("msg", "")[:200]))
s, n = check.minimise(t, d["class"], pool, 150)
d = check.fresh(s)
sys.stderr.write("after %d runs: %d of %d events: %s %s %s\n" % (n, s.count("\nev "), t.count("\nev "), d.get("outcome"), d.get("class"), d.get("msg", "")[:200]))
print(s, end="")
[w.stop() for w in pool]
