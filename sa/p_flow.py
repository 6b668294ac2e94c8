"""Whole-workspace properties decided on the call graph: effects of commands, locks, unfinished code, determinism, shared values."""
import re
from graph import graph, norm
from effects import Effects
from facts import strip_generics
from core import rel

def macros(t):
    sp = t.get("sp"); return [m.split("::")[-1] for m in sp[3]] if isinstance(sp, list) and len(sp) > 3 else []

def short(k): return k.replace("lang::impls::intrinsics::", "").replace("::{closure#", "{").replace("core::", "")

def intrinsics(g):
    """[(command names, root node, where)] of everything registered as a built-in command."""
    out = []
    for n in g.nodes.values():
        for f in n.fns:
            for b in f.blocks:
                t = b["t"]
                if b.get("c") or t["k"] != "call" or not t.get("f") or t["f"]["name"] != "insert_intrinsic" or "Implementations" not in t["f"]["path"]: continue
                names = [a["c"]["v"] for a in t["args"] if a["o"] == "const" and a["c"]["k"] == "str"]
                fs = []
                for a, ty in zip(t["args"], t["atys"]):
                    if a["o"] == "const" and a["c"]["k"] == "fn": fs += g.lookup(a["c"]["callee"].get("rpath") or a["c"]["callee"]["path"], f.crate.name)
                    else: fs += g.closures_in(f.crate, ty)
                out.append((names, fs, f, t))
    return out

# ---------------------------------------------------------------- effects
ALLOWED = {"ls": {"fs-read"}, "open": {"fs-read", "clock", "sleep"}, "save": {"fs-read", "fs-write"}, "rand": {"random"}, "benchmark": {"clock"}}
TEXT = {"fs-write": "changes the file system", "fs-read": "looks at the file system", "fs-watch": "watches the file system", "random": "takes random numbers", "clock": "reads the clock", "console": "uses the terminal",
        "exit": "ends the process", "process": "deals with processes", "env": "deals with the environment", "net": "uses the network", "thread": "starts threads", "sleep": "waits", "log": "logs", "foreign-code": "runs foreign code", "?": "calls a foreign function of unknown effect"}

def is_stderr(x): return x.path.endswith("_eprint") and "dbg" not in macros(x.t)

def effects(R):
    R.rule("anchor", "the built-in commands and the entry points are found")
    R.rule("command", "a command's code, wherever it may lead, has no effect outside its arguments but those of its kind: open and ls read files (open also its cache's clock), save reads and writes files, rand takes random numbers, benchmark reads the clock")
    R.rule("pure", "parsing, defining, compiling and evaluating by themselves, printing and help have no effect outside their arguments; loading a definitions or batch file only reads files")
    R.rule("debug", "nothing is written to the terminal by left-over debugging macros")
    g = graph(); E = Effects(g)
    drops = {n.key for n in g.drops.values()}
    def bg_drop(k):      # a thread that only frees a value
        return any(k == d or k.startswith(d + "::{closure") for d in drops)
    def bad(root, allowed):
        eff, pre = E.of(root); out = []
        for e, l in sorted(eff.items()):
            if e in allowed: continue
            l = [(k, x) for k, x in l if not (e == "thread" and bg_drop(k)) and not (e == "console" and is_stderr(x))]
            if l: out.append((e, l[0][0], l[0][1], g.trace(pre, l[0][0])))
        return out, len(pre)
    seen = set(); cmds = set()
    for names, fs, f, t in intrinsics(g):
        nm = names[0] if names else None
        R.ob("anchor", f"function of {nm or 'computed name'}", len(fs) >= 1, f"the function registered for {nm} is not known", rel(f.where()))
        for n in fs:
            cmds.add(nm); seen.add(n.key)
            b, cnt = bad(n.key, ALLOWED.get(nm, set()))
            R.saw("commands", f"{nm or '(computed)'}: {short(n.key)}"); R.saw("functions", *[n.key])
            for e, k, x, tr in b: R.ob("command", f"{nm} {short(n.key)} {e}", False, f"`{nm}` {TEXT[e]}: {x.path} at {x.where}, by {tr}", x.where)
            R.ob("command", f"{nm} {short(n.key)}", not b, f"{cnt} functions analysed", n.where())
    for nm in ALLOWED: R.ob("anchor", f"command {nm}", nm in cmds, f"command {nm} is not registered")
    R.floor("anchor", "commands", 70)
    # the engine itself
    roots = {"parse": (r"^ogma::lang::(syntax::)?parse::parse$", 1, set()), "expression": (r"^ogma::lang::(syntax::)?parse::(expression|definition\w*|file::\w+)$", 2, set()),
             "definitions": (r"^ogma::lang::defs::(?!.*from_file)(Definitions::\w+|\w+)$", 8, set()), "types": (r"^ogma::lang::types::\w+::\w+$", 20, set()),
             "compile": (r"^ogma::eng::.*compile\w*$", 2, set()), "evaluate": (r"^ogma::(eng::eval::.*|eng::step::.*|eng::arg::.*|eng::var::.*)$", 15, set()),
             "print": (r"^ogma::output::\w+::\w+$", 3, set()), "help": (r"^ogma::lang::help::.*$", 2, set()), "errors": (r"^ogma::common::err::.*$", 30, set()),
             "load file": (r"^ogma::(lang::defs::Definitions::add_from_file|rt::bat::parse_file)$", 2, {"fs-read"})}
    for nm, (pat, floor, allowed) in roots.items():
        ns = [n for n in g.find(pat) if "{closure" not in n.key and not n.short.split("::")[-1].startswith("_") and (n.fns[0].vis == "Public" or nm != "definitions")]
        ldr = {n.key for n in g.find(r"^ogma::lang::defs::Definitions::add_from_file$")}
        ok = R.ob("anchor", f"entry points: {nm}", len(ns) >= floor, f"{len(ns)} found, at least {floor} expected")
        for n in ns:
            al = set(allowed)
            if nm == "definitions" and ldr & set(g.reach([n.key])): al.add("fs-read")      # `def --load` reads the definition files
            b, cnt = bad(n.key, al)
            R.saw("entry points", n.key)
            for e, k, x, tr in b: R.ob("pure", f"{short(n.key)} {e}", False, f"{n.key} {TEXT[e]}: {x.path} at {x.where}, by {tr}", x.where)
            R.ob("pure", short(n.key), not b, f"{cnt} functions analysed", n.where())
    n = 0
    for k, nd in g.nodes.items():
        for x in nd.ext:
            if x.path.startswith("std::io::stdio::_"):
                n += 1; R.saw("prints", f"{x.where}")
                R.ob("debug", short(k), "dbg" not in macros(x.t), f"debugging macro at {x.where}", x.where)
    un = [(k, x) for k, l in E.direct.items() for e, x in l if e == "?"]
    R.ob("anchor", "every foreign function is classified", not un, f"unknown: {sorted({x.path for _, x in un})[:6]}")
    R.saw("call edges", f"{sum(len(x.out) for x in g.nodes.values())} edges of {len(g.nodes)} functions")
    R.assumptions += ["foreign crates' functions have no effect beyond the classified ones (std is classified path by path; the value, table and formatting crates are taken as pure)",
                      "a closure's effects belong to the function that writes it; commands' functions are reached only by registration"]

# ---------------------------------------------------------------- locks
ACQ = {"read": "r", "write": "w", "lock": "w", "upgradable_read": "w", "read_recursive": "rr", "try_read": None, "try_write": None, "try_lock": None}

class Locks:
    def __init__(s, g):
        s.g = g; s.direct = {}; s.regions = []
        for k, n in g.nodes.items():
            for f in n.fns:
                for bi, b in enumerate(f.blocks):
                    t = b["t"]
                    if b.get("c") or t["k"] != "call" or not t.get("f"): continue
                    c = s.guard(f.crate, t.get("dty"))
                    if c and (id(f), bi) in n.extat: s.direct.setdefault(k, {}).setdefault(c, (ACQ.get(t["f"]["name"], "w"), f, t))
        s.memo = {}
    def guard(s, cr, ty, depth=0):
        """The content type of a lock guard held by a value of this type."""
        if not isinstance(ty, int) or depth > 4: return None
        t = cr.ty(ty)
        if t["k"] == "adt":
            if re.search(r"(Mutex|RwLock\w*|ReentrantMutex)Guard$", t["path"]):
                a = [x for x in t.get("args", ()) if isinstance(x, int)]
                return norm(cr.tys(a[-1])) if a else t["path"]
            for a in t.get("args", ()):
                r = s.guard(cr, a, depth + 1)
                if r: return r
        for kk in ("elems",):
            for a in t.get(kk) or ():
                r = s.guard(cr, a, depth + 1)
                if r: return r
        return None
    def acq(s, k):
        """{lock: trace} a call of this function may acquire."""
        if k not in s.memo:
            pre = s.g.reach([k]); s.memo[k] = {c: (m, s.g.trace(pre, j), f, t) for j in pre for c, (m, f, t) in s.direct.get(j, {}).items() if m}
        return s.memo[k]
    def region(s, n, f):
        """Forward flow of live guards; yields (held {lock: mode}, block, terminator)."""
        cr = f.crate; at = {0: frozenset()}; work = [0]; out = []
        mv = lambda o: o["p"][0] if o["o"] == "move" and not o["p"][1] else None
        while work:
            bi = work.pop(); live = dict(at[bi]); b = f.blocks[bi]
            for st in b["s"]:
                if st["k"] == "=":
                    r = st["r"]; srcs = []
                    if r["r"] in ("use", "cast"): srcs = [mv(r["a"])]
                    elif r["r"] == "agg": srcs = [mv(o) for o in r["ops"]]
                    for x in srcs:
                        if x in live:
                            v = live.pop(x); live[st["p"][0]] = v
                    if r["r"] == "use" and r["a"]["o"] == "move" and r["a"]["p"][1] and r["a"]["p"][0] in live and s.guard(cr, f.locals[st["p"][0]]["ty"]):
                        live[st["p"][0]] = live.pop(r["a"]["p"][0])
                elif st["k"] == "dead" and False: pass
            t = b["t"]; nxt = []
            if t["k"] == "drop":
                if not t["p"][1]: live.pop(t["p"][0], None)
                nxt = [t["to"]]
            elif t["k"] == "call":
                moved = [mv(a) for a in t["args"]]; held = dict(live)
                out.append((held, bi, t))
                vs = [live.pop(x) for x in moved if x in live]
                c = s.guard(cr, t.get("dty"))
                if c: live[t["dest"][0]] = (c, ACQ.get((t.get("f") or {}).get("name"), "w") or "w")
                elif vs and False: pass
                nxt = [t["to"]] if t.get("to") is not None else []
            elif t["k"] == "switch": nxt = [x for _, x in t["v"]] + [t["else"]]
            elif t["k"] in ("goto", "assert"): nxt = [t["to"]]
            for x in nxt:
                if x is None: continue
                new = frozenset(live.items()); old = at.get(x)
                if old is None: at[x] = new; work.append(x)
                elif not new <= old: at[x] = old | new; work.append(x)
        # a join may have several entries for one local: report each
        return out

def locks(R):
    R.rule("anchor", "the locks are found")
    R.rule("again", "nothing called while a lock is held asks for the same lock again")
    R.rule("order", "no two locks are taken in opposite orders")
    R.rule("wait", "no lock is held while waiting for a thread, a channel")
    g = graph(); L = Locks(g); edges = {}
    for k, n in g.nodes.items():
        for f in n.fns:
            if not any(L.guard(f.crate, l["ty"]) for l in f.locals): continue
            for held, bi, t in L.region(n, f):
                c0 = L.guard(f.crate, t.get("dty"))
                if c0: R.saw("acquisitions", f"{short(k)}: {t['f']['name']} of {c0[:80]}"); R.saw("locks", c0)
                if not held: continue
                cal = t.get("f"); w = rel(f.where(t["sp"])) if isinstance(t.get("sp"), list) else rel(f.where())
                R.saw("calls under a lock", f"{short(k)} {w}: {cal['path'][:80] if cal else 'indirect'}")
                got = {}
                site = n.sites.get((id(f), bi), set())
                if c0 and (id(f), bi) in n.extat: got[c0] = (ACQ.get(cal["name"], "w"), "directly", f, t)
                tg = set(site)
                if cal and cal.get("kind") == "virtual":
                    d = g.dyn_of(f.crate, cal.get("self", t["atys"][0])); tg |= g.dyn_map().get(d, set())
                under = g.reach(tg) if tg else {}
                tg |= g.dyn_targets(under)
                for x in tg:
                    for c, (m, tr, ff, tt) in L.acq(x).items(): got.setdefault(c, (m, tr, ff, tt))
                for g_local, (c, mode) in held.items():
                    for c2, (m2, tr, ff, tt) in got.items():
                        if m2 is None: continue
                        if c2 == c: R.ob("again", f"{short(k)} {c[:60]}", mode == "r" and m2 == "rr", f"{n.key} holds the lock of {c} while {tr} takes it again (at {w})", w)
                        else: edges.setdefault((c, c2), (n.key, tr, w))
                    R.ob("again", f"{short(k)} holds {c[:60]}", True, "", w)
                for x in g.reach(tg) if tg else ():
                    for e in g.nodes[x].ext: wait_ob(R, k, e, held, w)
                if (id(f), bi) in n.extat: wait_ob(R, k, n.extat[(id(f), bi)], held, w)
    order = {}
    for (a, b) in edges: order.setdefault(a, set()).add(b)
    def closure(a):
        seen = set(); q = [a]
        while q:
            for y in order.get(q.pop(), ()):
                if y not in seen: seen.add(y); q.append(y)
        return seen
    for (a, b), (k, tr, w) in sorted(edges.items()):
        R.saw("lock order", f"{a[:50]} before {b[:50]}")
        R.ob("order", f"{a[:50]} -> {b[:50]}", a not in closure(b), f"{k} takes the lock of {b} ({tr}) while it holds the lock of {a}, elsewhere it is the other way round", w)
    R.floor("anchor", "acquisitions", 15); R.floor("anchor", "locks", 5); R.floor("anchor", "calls under a lock", 15)
    R.assumptions += ["locks of the same content type are taken to be the same lock", "a lock is held from its acquisition to the drop of its guard; guards leaked by mem::forget do not occur"]

WAIT = re.compile(r"std::thread::(functions::)?park|JoinHandle::join|ScopedJoinHandle|Receiver::(recv|recv_timeout|iter)\b|Receiver.*Iterator|Condvar::wait|crossbeam_utils::thread::scope|Barrier::wait")
def wait_ob(R, k, e, held, w):
    if WAIT.search(e.path): R.ob("wait", f"{short(k)} {e.path.split('::')[-1]}", False, f"{k} holds the lock of {[c for c, _ in held.values()]} while {e.path} at {e.where} waits (called at {w})", w)

# ---------------------------------------------------------------- unfinished code
UNFINISHED = {"todo", "unimplemented"}

def entry_points(g):
    """What the programs run: main, the public API of the shell and the language server, every built-in command."""
    roots = {n.key for n in g.nodes.values() if "{closure" not in n.key and (n.crate == "ogma_bin" and n.key.endswith("::main") or n.crate in ("ogma_ls", "ogma_shell") and n.fns[0].vis == "Public")}
    for names, fs, f, t in intrinsics(g): roots |= {n.key for n in fs}
    return roots

def unfinished(R):
    R.rule("anchor", "the entry points are found")
    R.rule("reach", "no `todo!`, `unimplemented!` or panic announcing missing support can be reached from the programs, the shell, the language server or a command")
    g = graph(); roots = entry_points(g); pre = g.reach_made(roots)
    R.saw("entry points", *roots); R.saw("reachable functions", *pre)
    n = 0
    for k, nd in sorted(g.nodes.items()):
        seen = {}
        for e in nd.ext:
            if not e.path.startswith("core::panicking::"): continue
            n += 1
            m = macros(e.t); why = next((x for x in m if x in UNFINISHED), None) or missing_support(e)
            if not why: continue
            i = seen[why] = seen.get(why, 0) + 1
            R.saw("unfinished places", f"{e.where}" + ("" if k in pre else " (not reachable)"))
            R.ob("reach", f"{short(k)} {why}" + (f" #{i}" if i > 1 else ""), k not in pre, f"{e.where}: `{why}` is reached by {g.trace(pre, k) if k in pre else ''}", e.where)
    R.saw("panic sites", *range(n))
    R.floor("anchor", "entry points", 80); R.floor("anchor", "reachable functions", 900); R.floor("anchor", "panic sites", 20)
    R.ob("reach", "functions", True, f"{len(pre)} functions reachable from {len(roots)} entry points")

MISSING = re.compile(r"not (yet )?(supported|implemented|handled|done)|unsupported|have not handled|need to (create|handle)", re.I)
def missing_support(e):
    """A panic whose text says that something is missing."""
    f = e.fn
    txt = []
    def lit(c):
        if c["k"] in ("str", "bytes"): txt.append(c["v"] if isinstance(c["v"], str) else "".join(map(chr, c["v"])))
        elif c["k"] == "ref": lit(c["v"])
    for a in e.t["args"]:
        if a["o"] == "const": lit(a["c"])
        elif a["o"] in ("move", "copy"):
            v = a["p"][0]
            for b in f.blocks:
                t = b["t"]
                if t["k"] == "call" and t["dest"][0] == v:
                    for x in t["args"]:
                        if x["o"] == "const": lit(x["c"])
    s = " ".join(txt)
    return f"panic `{s[:50]}`" if MISSING.search(s) else None

# ---------------------------------------------------------------- determinism
PAR_CONSUMERS = {"for_each", "for_each_init", "for_each_with", "all", "any", "count", "find_first", "find_map_first", "position_first", "collect_into_vec", "par_extend", "collect", "min", "max",
                 "unzip_into_vecs", "cmp", "eq", "ne", "len"}
PAR_ADAPT = {"enumerate", "map", "map_init", "map_with", "filter", "filter_map", "skip", "take", "zip", "zip_eq", "chain", "rev", "copied", "cloned", "with_min_len", "with_max_len", "flat_map_iter", "flatten_iter",
             "flat_map", "flatten", "chunks", "interleave", "step_by", "inspect", "into_par_iter", "par_iter", "par_iter_mut", "par_chunks", "par_chunks_mut", "opt_len", "drive_unindexed", "drive", "by_exponential_blocks", "by_uniform_blocks"}
SHARED_OK = [(re.compile(r"HashMap<alloc::string::String, usize,"), "the column index cache of a table row"), (re.compile(r"HashMap<rt::fscache::Key,"), "the file cache"),
             (re.compile(r"^core::option::Option<alloc::rcs::arc::Arc<lang::types::TypeDef>>$"), "a built-in type definition, made once")]

def is_rayon(p): return re.search(r"\brayon(_core)?::", p) is not None

def parallel(g, keys):
    """Calls of the parallel iterators in these functions; and the functions their closures may run."""
    calls = []; clos = set(); holders = set()
    for k in keys:
        n = g.nodes[k]
        for x in n.ext:
            if is_rayon(x.path):
                calls.append((k, x)); site = n.sites.get((id(x.fn), x.blk), set())
                clos |= {y for y in site if "{closure" in y or y in g.nodes}; holders.add(k)
    # closures handed to a function that runs a parallel iterator may be run by it
    done = set(); q = list(holders)
    while q:
        h = q.pop(); base = h.split("::{closure")[0]
        if base in done: continue
        done.add(base)
        for k in keys:
            n = g.nodes[k]
            for sk, site in n.sites.items():
                if base in site:
                    more = {y for y in site if "{closure" in y and not y.startswith(base)}
                    if more: clos |= more
                    if more or any(p in clos for p in site): pass
    run = set(g.reach(clos)); run |= {y for z in g.dyn_targets(run) for y in g.reach([z])} | set(g.dyn_targets(run))
    return calls, clos, run

def determinism(R):
    R.rule("anchor", "the commands and the parallel code are found")
    R.rule("parallel", "parallel code gives its results in order: no consumer whose answer depends on which worker is first, no collecting that picks one of several errors, no reduction")
    R.rule("shared", "code run in parallel shares nothing that can change but the column index cache and the file cache")
    R.rule("order", "no map or set with a random order, no address and no thread identity is used")
    g = graph(); L = Locks(g)
    roots = set()
    for names, fs, f, t in intrinsics(g): R.saw("commands", *[f"{names[0] if names else '(computed)'}: {short(n.key)}" for n in fs]); roots |= {n.key for n in fs}
    eng = [n.key for n in g.find(r"^ogma::(eng|lang)::") if n.fns[0].vis == "Public"]; roots |= set(eng)
    keys = set(g.reach(roots)); R.saw("functions", *keys)
    calls, clos, run = parallel(g, sorted(keys))
    for k, x in calls:
        R.saw("parallel calls", f"{x.name} {x.where}")
        ok = x.name in PAR_CONSUMERS or x.name in PAR_ADAPT or x.name in ("join",)
        R.ob("parallel", f"{short(k)} {x.name}", ok, f"{x.path} at {x.where}: its result may depend on the schedule", x.where)
        if x.name == "collect":
            h = g.head(x.fn.crate, x.t["dty"])
            R.ob("parallel", f"{short(k)} collect into {h[1].split('::')[-1]}", not (h[0] == "adt" and re.search(r"(result::Result|option::Option)$", h[1].split("<")[0])),
                 f"{x.where}: which of several errors is kept depends on the schedule", x.where)
    R.saw("functions run in parallel", *run)
    for k in sorted(run):
        for c, (m, f, t) in L.direct.get(k, {}).items():
            ok = next((w for r, w in SHARED_OK if r.search(c)), None)
            R.saw("locks in parallel code", f"{short(k)}: {c[:70]}")
            R.ob("shared", f"{short(k)} {c[:50]}", ok is not None, f"{k} uses what the lock of {c} protects and is run in parallel", rel(f.where()))
        for x in g.nodes[k].ext:
            if re.search(r"core::sync::atomic::Atomic\w*::(store|swap|fetch_|compare|get_mut)|mpsc|crossbeam_channel|OnceCell|OnceLock|LocalKey", x.path):
                R.ob("shared", f"{short(k)} {x.name}", False, f"{x.path} at {x.where} in code run in parallel", x.where)
    for k in sorted(keys):
        n = g.nodes[k]; seen = set()
        for f in n.fns:
            for l in f.locals:
                s = f.crate.tys(l["ty"])
                if re.search(r"std.*Hash(Map|Set)|RandomState", s) and s not in seen and random_map(f.crate, l["ty"]):
                    seen.add(s); R.ob("order", f"{short(k)} random order", False, f"{k} uses {s[:120]}", rel(f.where()))
        for x in n.ext:
            if re.search(r"std::thread::(current|id)|thread::Thread::id|ThreadId|current_thread_index|current_num_threads|available_parallelism|fmt::Pointer|ptr::addr|::expose_(addr|provenance)|\*(const|mut) T as core::hash", x.path) or (x.name == "hash" and re.search(r"\*(const|mut) ", x.path)):
                R.ob("order", f"{short(k)} {x.name}", False, f"{x.path} at {x.where}", x.where)
        for f in n.fns:
            for b in f.blocks:
                for st in b["s"]:
                    if st["k"] == "=" and st["r"]["r"] == "cast" and "xpose" in str(st["r"]["kind"]): R.ob("order", f"{short(k)} address", False, f"an address becomes a number in {k}", rel(f.where(st["sp"])))
        R.ob("order", short(k), True)
    R.floor("anchor", "commands", 70); R.floor("anchor", "functions", 900); R.floor("anchor", "parallel calls", 10); R.floor("anchor", "functions run in parallel", 300)
    R.assumptions += ["rayon's listed consumers keep their documented order guarantees", "maps with a fixed hash function iterate in an order that only depends on what was inserted and removed",
                      "commands' random numbers, clock readings and file contents are inputs (X01 lists which commands use them)"]

def random_map(cr, i, depth=0):
    """Is there a std map or set with the random hasher in this type (not inside a foreign closure)?"""
    t = cr.ty(i)
    if depth > 8: return False
    if t["k"] == "adt":
        if t["path"].endswith("RandomState"): return True
        return any(random_map(cr, a, depth + 1) for a in t.get("args", ()) if isinstance(a, int))
    return any(random_map(cr, t[k], depth + 1) for k in ("to", "elem") if isinstance(t.get(k), int)) or any(random_map(cr, a, depth + 1) for a in t.get("elems") or ())

# ---------------------------------------------------------------- shared values
INTERIOR = re.compile(r"(^|::)(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|OnceLock|LazyLock|SyncUnsafeCell|Mutex|RwLock|ReentrantMutex|ReentrantLock|Atomic\w+|Sender|Receiver|Condvar|Once)$")
RAWOPS = re.compile(r"core::ptr::|unchecked|from_raw|into_raw|assume_init|alloc::alloc::|core::intrinsics|transmute|zeroed|as_mut_ptr|get_mut_unchecked")

FOREIGN_MACRO = ("core::", "std::", "alloc::", "lazy_static::", "bitflags::", "crossbeam", "log::", "serde")

def values(R):
    R.rule("anchor", "the value type and the table row type are found")
    R.rule("immutable", "nothing inside a value can change through a shared reference, except the column index cache of a table row")
    R.rule("safe", "no unsafe code but computing the distance of two positions in one text")
    R.rule("cache", "the column index cache holds only what looking up the row's own table gives, is read only to look up a column, and every cache belongs to one table")
    R.rule("identity", "whether values are shared is not observable: sharing is only asked about in order to copy before writing")
    g = graph(); c = g.crates["ogma"]
    vt = [a["ty"] for a in c.adts if a["path"].split("::")[-1] == "Value" and "lang::types" in a["path"]]
    R.ob("anchor", "value type", len(vt) == 1, f"{len(vt)} types named Value")
    seen = set(); q = [(t, "Value") for t in vt]
    while q:
        i, via = q.pop()
        if i in seen: continue
        seen.add(i); t = c.ty(i)
        R.saw("types inside values", t["s"][:120])
        if t["k"] == "adt":
            p = strip_generics(t["path"]).split("<")[0]
            own = t["path"].split("::")[0] not in ("core", "alloc", "std") and t.get("variants") and norm(t["path"]).split("::")[0] in ("lang", "eng", "common", "rt", "output")
            if INTERIOR.search(p):
                R.ob("immutable", via, False, f"{via} contains {t['s'][:100]}, which can change through a shared reference"); continue
            for v in (t.get("variants") or ()) if own else ():
                for f in v["fields"]:
                    if p.endswith("::TableRow") and re.search(r"Arc<.*Mutex<.*HashMap<alloc::string::String, usize,", c.tys(f["ty"])): R.ob("immutable", "cache", True); R.saw("caches", f["name"]); continue
                    q.append((f["ty"], f"{via} > {p.split('::')[-1]}.{f['name']}"))
            for a in t.get("args", ()):
                if isinstance(a, int): q.append((a, via + " > " + p.split("::")[-1]))
        elif t["k"] == "ptr": R.ob("immutable", via, False, f"{via} contains the raw pointer {t['s']}")
        elif t["k"] in ("dyn", "closure", "fnptr"): R.ob("immutable", via, False, f"{via} contains {t['s'][:80]}, whose contents are not known")
        else:
            for kk in ("to", "elem"):
                if isinstance(t.get(kk), int): q.append((t[kk], via))
            for a in t.get("elems") or (): q.append((a, via))
    R.ob("immutable", "types", True, f"{len(seen)} types inside values")
    R.floor("anchor", "types inside values", 12); R.floor("anchor", "caches", 1)
    for k, n in sorted(g.nodes.items()):
        for f in n.fns:
            R.saw("function bodies", k)
            for b in f.unsafe_blocks or ():
                m = b[3] if len(b) > 3 else []
                if any(x.startswith(FOREIGN_MACRO) for x in m): continue
                raw = sorted({x.path for x in n.ext if RAWOPS.search(x.path)})
                deref = any(isinstance(st.get("p"), list) and "*" in st["p"][1] and f.crate.ty(f.locals[st["p"][0]]["ty"])["k"] == "ptr" for bb in f.blocks for st in bb["s"] if st["k"] == "=")
                ok = all(re.search(r"offset_from(_unsigned)?$", x) for x in raw) and raw and not deref
                R.saw("unsafe blocks", rel(f.where(b)))
                R.ob("safe", f"{short(k)} unsafe", ok, f"unsafe code at {rel(f.where(b))}: {raw}", rel(f.where(b)))
            if f.unsafe and not any(x.startswith(FOREIGN_MACRO) for x in (f.span[3] if len(f.span) > 3 else ())): R.ob("safe", f"{short(k)} unsafe fn", False, f"{k} is an unsafe function", rel(f.where()))
    for n, cr in g.crates.items():
        for im in cr.impls:
            if im["trait"] in ("core::marker::Send", "core::marker::Sync"): R.ob("safe", f"impl {im['trait']} for {im['self']}", False, f"unsafe promise about {im['self']}")
        for s in cr.statics:
            if s.get("mutable") or s.get("mut"): R.ob("safe", f"static mut {s['path']}", False, "a static that can change")
    cache_rules(R, g)
    for k, n in sorted(g.nodes.items()):
        for x in n.ext:
            if re.search(r"(rc::Rc|arc::Arc|rcs::\w+::\w+)::(ptr_eq|as_ptr|strong_count|weak_count|is_unique)$|core::ptr::(eq|addr_eq)$", x.path):
                ty = x.fn.crate.tys(x.t["atys"][0]) if x.t["atys"] else ""
                cow = any(re.search(r"::(get_mut|make_mut)$", y.path) and y.path.split("::")[-2] in ("Arc", "Rc") for y in n.ext)
                text = re.search(r"(Arc|Rc)<str>", ty)
                R.saw("identity questions", f"{x.where} {x.name}")
                R.ob("identity", f"{short(k)} {x.name}", bool(cow or text), f"{x.path} at {x.where} of {ty[:80]}: results depend on whether a value is shared", x.where)
    R.assumptions += ["the table, number and string crates have value semantics", "std's Arc hands out mutable access only to a sole owner"]

CACHE_T = re.compile(r"HashMap<alloc::string::String, usize,")
def cache_rules(R, g):
    """Who takes the cache's lock, what is put in, and which table a cache goes with."""
    L = Locks(g); n_lock = 0
    for k, d in sorted(L.direct.items()):
        for c, (m, f, t) in d.items():
            if not CACHE_T.search(c): continue
            n_lock += 1; R.saw("cache users", short(k))
            base = k.split("::{closure")[0]
            R.ob("cache", f"{short(k)} locks", re.search(r"types::TableRow::\w+$", base) is not None, f"{k} uses the column index cache", rel(f.where()))
    R.floor("anchor", "cache users", 1)
    # what is inserted: the result of the lookup in the row's own table, or a clone of such
    for k, n in sorted(g.nodes.items()):
        for x in n.ext:
            if x.name in ("insert", "entry", "extend", "get_mut", "remove", "clear", "retain", "drain", "iter_mut", "values_mut") and "HashMap" in x.path and x.t["atys"] and CACHE_T.search(x.fn.crate.tys(x.t["atys"][0])):
                ok = x.name == "insert"
                if ok:
                    ok = from_lookup(g, k, n, x)
                R.saw("cache writes", x.where)
                R.ob("cache", f"{short(k)} {x.name}", ok, f"{x.where}: not the result of looking up the same name in the row's table", x.where)
    R.floor("anchor", "cache writes", 1)
    # TableRow::new(table, cache, row): the cache is made in the same function as its first use with one table
    n_new = 0
    for k, n in sorted(g.nodes.items()):
        for f in n.fns:
            for bi, b in enumerate(f.blocks):
                if b.get("c"): continue
                for st in b["s"]:
                    if st["k"] == "=" and st["r"]["r"] == "agg" and st["r"]["kind"] not in ("closure",) and c_path(f.crate, st["r"]).endswith("types::TableRow"):
                        ok = re.search(r"types::TableRow::new$|TableRow as core::clone::Clone>::clone$", k) is not None
                        R.ob("cache", f"{short(k)} makes a row", ok, f"{k} builds a table row without its constructor", rel(f.where(st["sp"])))
                t = b["t"]
                if t["k"] != "call" or not t.get("f") or not re.search(r"TableRow::new$", strip_generics(t["f"]["path"])): continue
                n_new += 1; w = rel(f.where(t["sp"]))
                R.saw("rows made", w)
                ctys = [i for i, a in enumerate(t["atys"]) if CACHE_T.search(f.crate.tys(a))]
                src = origin(f, t["args"][ctys[0]]) if len(ctys) == 1 else None
                tab = [origin(f, a) for i, a in enumerate(t["args"]) if re.search(r"types::Table$|Table\b", f.crate.tys(t["atys"][i])) and i not in ctys]
                R.ob("cache", f"{short(k)} row", fresh(g, n, f, src) and one_table(f, src, tab), f"{w}: cache from {src}, table from {tab}", w)
    R.floor("anchor", "rows made", 4)

def c_path(cr, r):
    t = cr.ty(r["ty"]); return strip_generics(norm(t.get("path", ""))).split("<")[0]

def defs_of(f, v):
    out = []
    for bi, b in enumerate(f.blocks):
        if b.get("c"): continue
        for st in b["s"]:
            if st["k"] == "=" and st["p"][0] == v and not st["p"][1]: out.append(("s", st["r"], bi))
        t = b["t"]
        if t["k"] == "call" and t["dest"][0] == v and not t["dest"][1]: out.append(("c", t, bi))
    return out

def origin(f, o, depth=0):
    """Where an operand's value comes from, through copies, references and clones: ('arg', place) | ('call', callee, block) | ('const',) | None"""
    if o["o"] == "const": return ("const",)
    v, pr = o["p"]
    for _ in range(40):
        if 1 <= v <= f.nargs: return ("arg", v, tuple(str(e) for e in pr if e != "*" and not (isinstance(e, (list, tuple)) and e[0] == "d")))
        d = defs_of(f, v)
        if len(d) != 1: return ("local", v, len(d))
        k, x, bi = d[0]
        if k == "s":
            if x["r"] in ("use", "cast") and x["a"]["o"] != "const": v, pr = x["a"]["p"][0], list(x["a"]["p"][1]) + list(pr); continue
            if x["r"] == "ref": v, pr = x["p"][0], list(x["p"][1]) + list(pr); continue
            return ("value", x["r"], v)
        nm = (x.get("f") or {}).get("name")
        if nm in ("clone", "deref", "borrow", "as_ref", "into") and x["args"] and x["args"][0]["o"] != "const": v, pr = x["args"][0]["p"][0], list(x["args"][0]["p"][1]) + list(pr); continue
        return ("call", strip_generics((x.get("f") or {}).get("rpath") or (x.get("f") or {}).get("path", "?")), v)
    return None

def fresh(g, n, f, src):
    """A new cache: made by default() here, or given as the per-worker state of a parallel iterator that makes it by default()."""
    if not src: return False
    if src[0] == "call": return re.search(r"Default>?::default$|::default$|HashMap::(new|default)|Arc::new", src[1]) is not None
    if src[0] == "arg" and "{closure" in n.key:       # first argument of a closure with state: (state, item)
        return src[1] == 2
    return False

def one_table(f, src, tab):
    """The table does not change while the cache lives: it is the function's parameter, a captured reference or a local defined once."""
    if len(tab) != 1 or tab[0] is None: return False
    return tab[0][0] in ("arg", "call") or (tab[0][0] == "local" and tab[0][2] <= 1) or tab[0][0] == "value"

COL = re.compile(r"TableRow::col_idx$")
def from_lookup(g, k, n, x):
    """`insert(name, index)`: the index is what the column lookup returned: its result, the success payload of it, or the own parameter of a closure mapped over it."""
    src = payload(x.fn, x.t["args"][-1])
    if not src: return False
    if src[0] == "call": return COL.search(src[1]) is not None
    if src[0] == "arg" and "{closure" in k and src[1] >= 2:
        par = g.nodes.get(k.rsplit("::{closure", 1)[0])
        for (fid, bi), site in (par.sites.items() if par else ()):
            if k in site:
                f = next(ff for ff in par.fns if id(ff) == fid); t = f.blocks[bi]["t"]
                if t["f"]["name"] in ("map", "and_then", "inspect") and t["args"]:
                    s2 = payload(f, t["args"][0])
                    if s2 and s2[0] == "call" and COL.search(s2[1]): return True
    return False

def payload(f, o):
    """origin(), also through the success payload of a Result: `?`, match, map and copied."""
    for _ in range(8):
        if o["o"] == "const": return ("const",)
        src = origin(f, o)
        if not src or src[0] != "call": return src
        d = defs_of(f, src[2])
        if len(d) == 1 and d[0][0] == "c" and re.search(r"::(branch|copied|cloned|inspect|map_err|as_ref|as_mut)$", src[1]) and d[0][1]["args"]: o = d[0][1]["args"][0]; continue
        return src
    return None
