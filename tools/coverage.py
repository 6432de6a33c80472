#!/usr/bin/env python3
"""Which control-flow edges of the crate under test no check has reached, by
function. Reads the bitmaps the last runs left in sim/target/cov."""
import glob, os, re, subprocess, sys, collections
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exe = R + "/sim/target/release/dst"
cov = {os.path.basename(f): open(f, "rb").read() for f in glob.glob(R + "/sim/target/cov/*")}
if len(sys.argv) > 1:
    cov = {k: v for k, v in cov.items() if k in sys.argv[1:]}
asm = subprocess.run(["objdump", "-d", "--no-show-raw-insn", "--demangle=rust", exe], capture_output=True, text=True).stdout
start = None
for l in subprocess.run(["nm", exe], capture_output=True, text=True).stdout.splitlines():
    if l.endswith("__start___sancov_guards"):
        start = int(l.split()[0], 16)
sites = collections.OrderedDict()
fn = "?"
last = {}
guards = []
for l in asm.splitlines():
    m = re.match(r"^[0-9a-f]+ <(.*)>:$", l)
    if m:
        fn = m.group(1)
        continue
    m = re.search(r"lea .*%rdi\s+# ([0-9a-f]+)", l)
    if m:
        lea = int(m.group(1), 16)
    elif "<__sanitizer_cov_trace_pc_guard>" in l and "call" in l:
        guards.append((lea, fn, int(l.split(":")[0], 16)))
lo = start if start is not None else min(g[0] for g in guards)
by = collections.defaultdict(lambda: [0, 0, []])
seen = set()
for g, fn, pc in guards:
    i = (g - lo) // 4 + 1
    if not 0 < i < 65536: continue
    if i in seen:
        continue
    seen.add(i)
    e = by[fn]
    e[0] += 1
    if any(c[i] for c in cov.values()):
        e[1] += 1
    else:
        e[2].append(hex(pc))
print(len(seen), "edges,", sum(v[1] for v in by.values()), "reached by", sorted(cov))
for fn, (n, k, miss) in sorted(by.items(), key=lambda x: x[0]):
    if k < n:
        print("%4d/%-4d %s" % (k, n, fn[:150]))
