#!/usr/bin/env python3
"""Generates build.ninja for the simulator: every source file of /repo/src (instrumented) plus shims and harness."""
import glob, os, sys
REPO = os.environ.get("QDB_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("QDB_SIM_BUILD", os.path.join(os.path.dirname(HERE), "build"))
os.makedirs(OUT, exist_ok=True)
SKIP = {"XrdPlugin.cc", "XrdQuarkDB.cc"}
src = sorted(f for f in glob.glob(REPO + "/src/**/*.cc", recursive=True) if os.path.basename(f) not in SKIP)
deps = sorted(glob.glob(REPO + "/deps/xxhash/*.c*"))
inc = f"-I{HERE}/shim/include -I{REPO}/src -I{REPO}/deps"
common = "-g1 -fno-omit-frame-pointer -pthread -fno-pie -w"
repo_cxx = f"clang++ -std=c++17 -O1 {common} -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -DASIO_STANDALONE -include string -include cctype -include cstdint -include cmath -include sstream -include mutex {inc}"
repo_cc = f"clang -O1 {common} {inc}"
harn_cxx = f"clang++ -std=c++17 -O1 {common} -fno-access-control -include string -include cctype -include cstdint -include cmath -include sstream -include mutex {inc}"
core_cxx = f"clang++ -std=c++20 -O2 {common} -fno-access-control {inc}"
o = []
o.append("builddir = " + OUT)
for n, c in (("repocxx", repo_cxx), ("repocc", repo_cc), ("harn", harn_cxx), ("core", core_cxx)):
    pre, post = (f"{HERE}/cxxloc.sh $out ", "") if n in ("harn", "core") else ("", "-o $out")
    o.append(f"rule {n}\n  command = {pre}{c} -MMD -MF $out.d -MT $out -c $in {post}\n  depfile = $out.d\n  deps = gcc\n  description = $in")
o.append(f"rule link\n  command = clang++ -no-pie -rdynamic -o $out $in -lssl -lcrypto -ldl -lpthread\n  description = link")
objs = []
def add(rule, f, obj):
    ob = f"{OUT}/obj/{obj}.o"
    o.append(f"build {ob}: {rule} {f}")
    objs.append(ob)
for f in src:
    add("repocxx", f, "repo_" + os.path.relpath(f, REPO).replace("/", "_"))
for f in deps:
    if f.endswith((".c", ".cc", ".cpp")):
        add("repocc" if f.endswith(".c") else "repocxx", f, "dep_" + os.path.relpath(f, REPO).replace("/", "_"))
for f in sorted(glob.glob(HERE + "/shim/*.cc")):
    add("core", f, "shim_" + os.path.basename(f))
for f in sorted(glob.glob(HERE + "/core/*.cc")):
    add("core", f, "core_" + os.path.basename(f))
for f in sorted(glob.glob(HERE + "/scen/*.cc")):
    # instantiations of header-only code under test are instrumented like the code itself
    add("repocxx" if os.path.basename(f).startswith("inst_") else "harn", f, "scen_" + os.path.basename(f))
o.append(f"build {OUT}/qdbsim: link " + " ".join(objs))
o.append(f"default {OUT}/qdbsim")
new = "\n".join(o) + "\n"
p = OUT + "/build.ninja"
if not os.path.exists(p) or open(p).read() != new:
    open(p, "w").write(new)
print(p)
