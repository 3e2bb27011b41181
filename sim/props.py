"""Which workloads decide which property."""
REAL = ["StateMachine, dispatchers, transactions, pending queues, RESP parser and formatter", "raft: state, journal, director, replicator, lease, elections, commit tracking, trimming, resilvering", "authentication, handshakes, pub/sub, leases, shards, configuration, recovery", "AsioPoller, Link and the accept/read/write paths on top of the simulated network"]
STUB = ["RocksDB (in-memory re-implementation with write-ahead log, snapshots, checkpoints, crash and disk faults)", "qclient network stack (same API on the simulated network)", "asio reactor", "kernel: files, sockets, clocks, threads, locks, randomness (simulated)", "XRootD protocol glue, uuid"]
COMMON = ["RocksDB honours its documented contract (atomic batches, snapshots, synced writes survive power loss)", "power loss loses or tears only unsynced write-ahead-log tails; metadata operations and plain files are durable in order", "interleavings at the granularity of instrumented memory accesses and synchronisation operations, sequentially consistent memory"]
def P(work, **kw): return dict(work=work, assumptions=COMMON + kw.pop("assume", []), **kw)
def W(scenario, weight=1, name="", **knobs): return dict(scenario=scenario, weight=weight, name=name, knobs=knobs)
def J(weight=1, name="", **k): return W("journal", weight, name, **k)
def U(kind, weight=1, name="", **k): return W("utils", weight, name, kind=kind, **k)
def PR(weight=1, name="", **k): return W("proto", weight, name, **k)
def CL(weight=1, name="", **k): return W("cluster", weight, name, **k)
PROPS = {
  "C01": P([CL(2), CL(2, "power", fsync=0, faults=1, fproc=1, fpower=1, ftrim=0), CL(2, "kill", faults=1, fproc=1, fnet=1), CL(1, "kill-net-member", faults=1, fproc=1, fnet=1, fmember=1)]),
  "C02": P([CL(2), CL(2, "net", faults=1, fnet=1, fcoup=1, clients=5), CL(1, "coup-stall", faults=1, fcoup=1, fstall=1, pipep=0.3), CL(1, "clock", faults=1, fnet=1, fclock=1)]),
  "C03": P([CL(1), CL(3, "votes", faults=1, fnet=1, fproc=1, fcoup=1, clients=2), CL(1, "votes-power", faults=1, fsync=0, fproc=1, fpower=1, ftrim=0, fcoup=1, clients=2), CL(1, "votes-trim", faults=1, fnet=1, fproc=1, fcoup=1, ftrim=1, clients=2), CL(1, "votes-member", faults=1, fnet=1, fmember=1, fcoup=1, clients=2), W("state", 2), W("state", 1, "fine", **{"sched.mean": 5, "wsync": 1}), W("state", 1, "power", policy=0, power=1, crash=1)]),
  "C04": P([CL(2), CL(2, "net-coup", faults=1, fnet=1, fcoup=1), CL(1, "trim-kill", faults=1, fnet=1, fproc=1, ftrim=1), CL(1, "kill-coup", faults=1, fproc=1, fcoup=1, fstall=1), J(2)]),
  "C05": P([CL(2), CL(2, "leases", leases=1, faults=1, fproc=1), CL(2, "trim", leases=1, faults=1, fproc=1, ftrim=1), CL(1, "tx", txp=0.4, pipep=0.4)]),
  "C06": P([CL(3), CL(1, "all", faults=1, fnet=1, fproc=1, fclock=1, fmember=1, fstall=1, ftrim=1, fcoup=1), CL(1, "member", faults=1, fmember=1, fnet=1), CL(1, "stall", faults=1, fstall=1, fclock=1, fcoup=1), U(4, 0.5, "timeouts")]),
  "C07": P([CL(1), CL(3, "net-clock", faults=1, fnet=1, fclock=1, stale=0.2), CL(1, "net-stall", faults=1, fnet=1, fstall=1, stale=0.1), CL(1, "coup", faults=1, fnet=1, fcoup=1)]),
  "C08": P([CL(1), CL(3, "member", faults=1, fmember=1, fnet=1, extra=2), CL(2, "member-kill", faults=1, fmember=1, fproc=1, fcoup=1), J(1)]),
  "C09": P([CL(3, "trim", faults=1, ftrim=1, fnet=1), CL(2, "trim-kill", faults=1, ftrim=1, fproc=1), CL(1, "trim-all", faults=1, ftrim=1, fproc=1, fnet=1, fmember=1, fcoup=1, fstall=1), CL(2, "trim-disk", faults=1, ftrim=1, fdisk=1, fproc=1), CL(1, "trim-disk-calm", faults=1, ftrim=1, fdisk=1, fnet=0, fproc=0, fcoup=0), CL(1, "longlag", faults=1, ftrim=1, longlag=1, fdisk=1, fnet=0, fproc=0, fcoup=0, fmember=0, nodes=3, tlow=1000, thigh=1500, thb=250, clients=2, **{"sched.mean": 40000}), W("shard", 1, "copies")]),
  "C10": P([PR(3), PR(2, "slow", sndbuf=4000, slowread=0.1, chunk=0.5, fuzzers=0, raws=0), PR(1, "drops", drops=0.1, chunk=0.5), CL(2, "pipelines", pipep=0.5, txp=0.2), CL(1, "pipelines-faults", pipep=0.5, faults=1, fproc=1, fnet=1, fcoup=1)]),
  "C16": P([PR(4, "auth", pw=1, authers=4, conns=2, fuzzers=0, raws=0, bursts=8), PR(1, "auth-jumps", pw=1, authers=4, jump=1, conns=1, bursts=8), PR(1, pw=1), PR(1, "drops", pw=1, authers=2, drops=0.1), U(9, 0.5, "challenge")]),
  "C17": P([PR(2, "foreign", foreign=1, raft=1, conns=1, fuzzers=0, raws=0), PR(1, "foreign-pw", foreign=1, pw=1, raft=1, conns=1, fuzzers=0, raws=0), W("twins", 3)]),
  "C19": P([PR(3, "arbitrary", fuzzers=2, raws=2, conns=1, authers=0, foreign=0), PR(1, "arbitrary-raft", raft=1, fuzzers=3, raws=1, conns=1), PR(1, "malformed", raws=4, fuzzers=0, conns=1, raft=1, foreign=2), PR(1)]),
  "C14": P([W("pubsub", 3), W("pubsub", 2, "cluster", nodes=3, faults=1), W("pubsub", 1, "crowd", crowd=150), U(8, 0.7, "multimap"), W("sm", 0.5)]),
  "C15": P([J(3), J(2, "power", crash=1, power=1), J(1, "power-always", policy=0, crash=1, power=1), J(1, "burst", burst=0.12)]),
  "C13": P([CL(2, "lease", leases=1, faults=1, fclock=1), CL(2, "lease-coup", leases=1, faults=1, fclock=1, fcoup=1, fproc=1), CL(1, "lease-calm", leases=1, faults=0), W("lease", 2, "single"), U(5, 0.5, "clock"), U(6, 0.5, "expirations")]),
  "C11": P([W("sm", 3), W("sm", 1, "calm", crash=0, tx=0)]),
  "C12": P([W("sm", 2, "tx", tx=0.45, pipe=0.2), W("sm", 1), W("iso", 2, "isolation"), W("iso", 1, "isolation-kill", crash=1)]),
  "C18": P([W("shard", 4), W("shard", 2, "errors", crash=0, disk=1), W("shard", 1, "power", crash=1, power=1), W("shard", 1, "space", space=1), W("bulk", 2, "bulkload")]),
  "C20": P([U(2, 2, "threads"), U(1, 1, "inflight"), U(3, 1, "fsync"), U(4, 0.5, "timeouts"), U(7, 0.3, "clocks"), CL(2, "restarts", faults=1, fproc=1, fmember=1)]),
  "C22": P([W("health", 3), W("health", 2, "standalone", raft=0), W("health", 2, "cluster", raft=1)]),
  "C23": P([W("conf", 2, "load", full=0), W("conf", 3, "start", full=1)]),
  "C24": P([W("recovery", 3, "edits", restore=0), W("recovery", 2, "restore", restore=1)]),
  "C21": P([U(0, 3, "counters"), U(0, 1, "long", long=1), W("stats", 3, "nodes")]),
}
