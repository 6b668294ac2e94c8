"""Building the facts from /repo's working tree, and the report / evidence / exit protocol."""
import fcntl, glob, json, os, shutil, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
DEEP = "core::option,core::result,core::cmp,core::ops,core::convert,core::bool,core::clone,core::default,core::mem::,tui::"
UNITS = {
    # unit -> (manifest dir, crates whose facts are wanted, deep prefixes or None)
    "partial": ("units/partial", ["ogma_shell_partial", "ogma_bin_partial"], DEEP),
    "ws": ("units/ws", ["libs", "ogma", "ogma_ls", "ogma_shell", "ogma_bin"], DEEP),
}

class BuildError(Exception): pass

def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()

def driver():
    """The facts driver, built from /verif/driver when it is missing or stale."""
    d = os.path.join(VERIF, "driver"); b = os.path.join(TARGET, "driver", "release", "ogma-facts")
    src = max(os.path.getmtime(p) for p in glob.glob(d + "/src/*.rs") + [d + "/Cargo.toml"])
    if not os.path.exists(b) or os.path.getmtime(b) < src:
        r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(TARGET, "driver")], cwd=d, capture_output=True, text=True)
        if r.returncode: raise RuntimeError("driver build failed:\n" + r.stderr[-4000:])
        os.utime(b)
    return b

def build_facts(unit, load):
    """Type-check the unit (which includes /repo's sources by path) under the driver; -> {crate: load(json path)}"""
    mdir, crates, deep = UNITS[unit]
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver(); tgt = os.path.join(TARGET, unit); out = os.path.join(TARGET, "facts", unit)
        os.makedirs(out, exist_ok=True)
        for f in glob.glob(out + "/*"): os.remove(f)
        env = dict(os.environ)
        env.pop("CARGO_BUILD_TARGET_DIR", None)
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib") + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints=allow -Cdebug-assertions=on -Coverflow-checks=on"
        env["OGMA_FACTS_DIR"] = out
        env["CARGO_TARGET_DIR"] = tgt
        if deep: env["OGMA_FACTS_DEEP"] = deep
        else: env.pop("OGMA_FACTS_DEEP", None)
        # cargo must not consider the workspace crates fresh: the driver would be skipped
        subprocess.run(["cargo", "+nightly", "clean", "--offline", "--workspace"], cwd=os.path.join(VERIF, mdir), env=env, capture_output=True, text=True)
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--keep-going"], cwd=os.path.join(VERIF, mdir), env=env, capture_output=True, text=True)
        paths = {c: os.path.join(out, c + ".json") for c in crates}
        if r.returncode:
            raise BuildError(r.stderr[-6000:])
        for c, p in paths.items():
            if not os.path.exists(p): raise BuildError(f"no facts for {c}\n{r.stderr[-3000:]}")
        return {c: load(p) for c, p in paths.items()}

_crates = {}
def crate(unit, name):
    if unit not in _crates:
        from facts import Crate
        _crates[unit] = build_facts(unit, Crate)
    return _crates[unit][name]

def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p

class Report:
    """Obligations of one property."""
    def __init__(self, pid, level, technique):
        self.pid = pid; self.level = level; self.technique = technique
        self.obs = []          # (rule, key, ok, detail, where)
        self.rules = {}        # rule -> text
        self.analysed = {}     # kind -> set
        self.assumptions = []
        self.samples = []
        self.trusted = ["rustc nightly front end (MIR construction, trait resolution)", "/verif/driver (MIR -> facts)", "/verif/sa (analysis)"]
    def rule(self, name, text): self.rules[name] = text
    def ob(self, rule, key, ok, detail="", where=""):
        self.obs.append((rule, key, bool(ok), detail, where))
        return ok
    def saw(self, kind, *items):
        self.analysed.setdefault(kind, set()).update(items)
    def floor(self, rule, kind, n):
        """Fail closed when fewer instances than confirmed by hand were analysed."""
        got = len(self.analysed.get(kind, ()))
        self.ob(rule, f"floor:{kind}", got >= n, f"{got} {kind} analysed, at least {n} expected")

def known_findings():
    """[(property, key, text)] of recorded, unrepaired findings."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN "):
                pid, key, text = l[6:].split(" | ", 2)
                out.append((pid.strip(), key.strip(), text.strip()))
    return out

def run_check(pid, fn, level, technique, seed, tier):
    """Run one property check; prints the protocol lines; -> exit code."""
    t0 = time.time()
    R = Report(pid, level, technique)
    R.tier = tier
    try:
        fn(R)
    except BuildError as e:
        R.ob("type-check", "build", False, "the analysed sources do not type-check:\n" + str(e))
    except Exception as e:
        R.ob("analysis", f"internal:{type(e).__name__}", False, f"the analysis could not decide: {e}\n" + traceback.format_exc()[-3000:])
    if not R.obs: R.ob("analysis", "vacuous", False, "no obligation was generated")
    known = {k: t for p, k, t in known_findings() if p == pid}
    bad = []; kn = []
    for rule, key, ok, detail, where in R.obs:
        if ok: continue
        k = f"{rule}:{key}"
        (kn if k in known else bad).append((k, rule, detail, where))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2), "violations": len(bad),
        "assumptions": R.assumptions,
        "coverage": {
            "obligations": len(R.obs), "discharged": sum(1 for o in R.obs if o[2]),
            "checker_cmd": f"python3 /verif/check.py {pid}", "trusted_base": R.trusted,
            "explanation": R.technique + ". Rules: " + " | ".join(f"[{n}] {t}" for n, t in R.rules.items()),
            "rules": {n: {"text": t, "instances": sum(1 for o in R.obs if o[0] == n), "held": sum(1 for o in R.obs if o[0] == n and o[2])} for n, t in R.rules.items()},
            "analysed": {k: {"count": len(v), "items": sorted(map(str, v))[:80]} for k, v in R.analysed.items()},
            "samples": (R.samples or [{"rule": o[0], "instance": o[1], "held": o[2], "where": o[4], "detail": o[3][:400]} for o in R.obs])[:25],
        },
    }
    if kn: ev["coverage"]["known_findings"] = sorted({k for k, *_ in kn})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in sorted({k for k, *_ in kn}): print(f"KNOWN-FINDING: property={pid} {k}: {known[k]}")
    rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
    if bad:
        with open(rp, "w") as f:
            for k, rule, detail, where in bad:
                f.write(f"VIOLATION of {pid}\n rule: {rule}: {R.rules.get(rule, '')}\n instance: {k}\n where: {where}\n {detail}\n\n")
        seen = set()
        for k, rule, detail, where in bad:
            if k in seen: continue
            seen.add(k)
            if len(seen) <= 12: print(f"  {k} at {where}: {detail[:700]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if os.path.exists(rp): os.remove(rp)
    print(f"OK property={pid}: {len(R.obs)} obligations hold; " + ", ".join(f"{len(v)} {k}" for k, v in R.analysed.items()))
    return 0

def undecided(pid, level, technique, seed, tier):
    """The time limit passed without a verdict."""
    def fn(R): R.ob("analysis", "time", False, "the analysis did not finish in time: the property could not be shown to hold")
    return run_check(pid, fn, level, technique, seed, tier)
