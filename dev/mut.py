#!/usr/bin/env python3
"""Development aid: apply textual variants to copies of /repo, check that they compile, run checks. Runs variants in parallel.
usage: mut.py FILE.py [filter]; FILE.py defines CASES = [(name, expect 'bad'|'ok', file, old, new | [(old,new)...], [props])]"""
import subprocess, sys, os, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
flt = sys.argv[2] if len(sys.argv) > 2 else ""
N = int(os.environ.get("J", "6"))
import queue
slots = queue.Queue()
base = "/tmp/mutw"
shutil.rmtree(base, ignore_errors=True)
for i in range(N):
    d = f"{base}/{i}"; os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run(f"mkdir {d}/verif && cd /verif && cp -a check.py sa driver units target known-findings.txt stubs {d}/verif/ 2>/dev/null; rm -rf {d}/verif/target/partial {d}/verif/target/ws {d}/verif/target/facts", shell=True)
    subprocess.run(f"mkdir -p {d}/verif/target && cp -a /verif/target/partial /verif/target/ws {d}/verif/target/; grep -rl '/repo' {d}/verif/units {d}/verif/sa {d}/verif/stubs --include=*.rs --include=*.toml --include=*.py 2>/dev/null | xargs -r sed -i 's#/repo\\b#{d}/repo#g'", shell=True)
    slots.put(d)
def one(case):
    name, expect, file, edits, props = case
    d = slots.get(); out = []
    try:
        p = os.path.join(d, "repo", file); src = open(p).read(); s = src
        if isinstance(edits, str): s = edits
        else:
            for o, n in edits:
                if s.count(o) < 1: return [(False, f"FAIL {name}: text not found {o!r}")]
                s = s.replace(o, n, 1)
        try:
            open(p, "w").write(s)
            for pid in props:
                t = time.time()
                try: r = subprocess.run(["python3", d + "/verif/check.py", pid], capture_output=True, text=True, timeout=300); rc = r.returncode; so = r.stdout; se = r.stderr
                except subprocess.TimeoutExpired: rc = 99; so = "TIMEOUT"; se = ""
                bad = rc == 1 and f"VIOLATION property={pid}" in so
                build = "type-check:build" in so; intl = "internal:" in so
                good = (bad and not build) if expect == "bad" else rc == 0
                l = ("ok   " if good else "FAIL ") + f"{name} {pid} -> {rc} {'BUILD' if build else ''}{'INTERNAL' if intl else ''} {time.time()-t:.0f}s"
                if not good or os.environ.get("V"): l += "\n      " + "\n      ".join(x[:500] for x in (so + se).strip().splitlines()[:6])
                out.append((good, l))
        finally: open(p, "w").write(src)
    finally: slots.put(d)
    return out
fails = 0
with ThreadPoolExecutor(N) as ex:
    for res in ex.map(one, [c for c in ns["CASES"] if re.search(flt, c[0])]):
        for g, l in res:
            fails += not g; print(l, flush=True)
shutil.rmtree(base, ignore_errors=True)
print("failures:", fails)
