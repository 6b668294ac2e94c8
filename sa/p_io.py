"""Files: commands stay below the root directory (S01), cached contents belong to the file asked for (S02)."""
import re
from lin import Lin
import absint, models
from absint import *
from models import okv, peel, norm_path, TRAITS
from core import crate, rel
from p_history import unit, panics, finish

IO = "intrinsics/io.rs"
ROOT = ("root",)
CROOT = ("canon", ROOT)
SAME = {"as_path", "to_path_buf", "into_path_buf", "as_os_str", "to_owned", "into_os_string", "as_mut_os_str", "into_boxed_path", "clone", "deref", "as_ref", "borrow", "into", "from", "to_str", "as_str",
        "to_string_lossy", "into_owned", "new", "as_mut", "deref_mut", "from_str", "to_string"}
LOOK = {"exists", "try_exists", "is_dir", "is_file", "is_symlink", "read_link"}      # asks whether something is there
SINK_P = {"read_dir", "metadata"}
SINK_F = re.compile(r"^std::fs::(File::(open|create\w*)|OpenOptions::open|read|read_to_string|read_dir|write|create_dir|create_dir_all|remove_\w+|rename|copy|hard_link|soft_link|set_permissions|metadata|DirBuilder::create)$")

class Loose(Interp):
    """Goes on with an unknown value where the precise interpreter gives up; such a value is never taken to be a contained path."""
    def place_ty(s, fn, p):
        ty = fn.locals[p[0]]["ty"]; var = None
        for e in p[1]:
            t = s.ty(ty)
            if e == "*": ty = t.get("to") if t["k"] in ("ref", "ptr") else (t.get("args") or [None])[0]
            elif e[0] == "d": var = e[1]; continue
            elif e[0] == "f":
                if t["k"] == "adt" and t.get("variants"): ty = t["variants"][var or 0]["fields"][e[1]]["ty"]
                elif t["k"] == "tuple": ty = t["elems"][e[1]]
                elif t["k"] == "closure": ty = t["upvars"][e[1]]
                else: return None
            elif e[0] in ("i", "c"): ty = t.get("elem")
            else: return None
            if ty is None: return None
            var = None
        return ty
    def some(s, ty): return s.mkval(s.fresh("any"), ty) if ty is not None else Obj("junk")
    def read(s, st, d, p, fn):
        try: return super().read(st, d, p, fn)
        except Imprecise: return s.some(s.place_ty(fn, p))
    def write(s, st, d, p, val, fn):
        try: super().write(st, d, p, val, fn)
        except Imprecise: st.mem[("L", d, p[0])] = s.some(fn.locals[p[0]]["ty"])
    def rvalue(s, st, d, r, fn, sp=None):
        try: return super().rvalue(st, d, r, fn, sp)
        except Imprecise: return [(st, s.some(r.get("ty")))]
    def switch(s, fn, st, t, v):
        try: return super().switch(fn, st, t, v)
        except Imprecise: return [(st.copy(), b) for b in {b for _, b in t["v"]} | {t["else"]}]
    def call_named(s, st, f, args, d, t, fn):
        try: return super().call_named(st, f, args, d, t, fn)
        except Imprecise as e:
            if not s.record: s.gaveup.add(f"{fn.path if fn else '?'}: {f.get('rpath') or f['path']}: {str(e)[:100]}")
            return s.loose_hook(st, f, args, d, t, fn)
    gaveup = set()
    lost = {}           # ghost key -> value once an iteration may have changed it
    def back_hook(s, st): pass
    def changed(s, st, a, b):
        """Where two values differ: the fields of a struct, or all of it."""
        ty = next((x.ty for x in (a, b) if isinstance(x, (Agg, Sym)) and x.ty is not None), None)
        if ty is None or not isinstance(a, (Agg, Sym)) or not isinstance(b, (Agg, Sym)): return [()]
        t = s.ty(ty); fs = t["variants"][0]["fields"] if t["k"] == "adt" and t.get("variants") and len(t["variants"]) == 1 else None
        if not fs or a.ty != b.ty or not isinstance(a, Agg) and not isinstance(b, Agg): return [()]
        out = []
        for i in range(len(fs)):
            x, y = s.proj(st, a, i), s.proj(st, b, i)
            if x != y: out += [(i,) + p for p in s.changed(st, x, y)]
        return out or [()]
    def fixloop(s, s0, step, name, trim, sp=None, ends=None):
        """Loops: whatever an iteration may change is unknown at the head; no relation between iterations is kept."""
        s0 = s0.copy(); trim(s0); outer = s0.trace; s0.trace = (); hav = set(); gh = set()
        def head():
            h = s0.copy()
            for l, path in sorted(hav, key=lambda x: (len(x[1]), repr(x))):
                if not path: h.mem[l] = Obj("junk")
                elif not any((l, path[:k]) in hav for k in range(len(path))):
                    v = h.mem[l]
                    for i in path[:-1]: v = s.proj(h, v, i)
                    s.wr(h, l, path, s.mkval(s.fresh("any"), s.ty(v.ty)["variants"][0]["fields"][path[-1]]["ty"]))
            for k in gh: h.ghost[k] = s.lost.get(k)
            return h
        while True:
            h = head(); s.record += 1
            try: res = step(h.copy())
            finally: s.record -= 1
            n = len(hav) + len(gh)
            for s2, kind, x in res:
                if kind != "back": continue
                s2 = s2.copy(); trim(s2); s.back_hook(s2)
                for l, v in h.mem.items():
                    if l in s2.mem and s2.mem[l] != v: hav |= {(l, p) for p in s.changed(s2, v, s2.mem[l])}
                gh |= {k for k in set(h.ghost) | set(s2.ghost) if h.ghost.get(k) != s2.ghost.get(k)}
            if len(hav) + len(gh) == n: break
        out = []
        for s2, kind, x in step(head()):
            if kind == "back": continue
            s2 = s2.copy(); s2.trace = outer + (("loop", name),) + s2.trace; out.append((s2, kind, x))
        s.loop_info[name] = {"partitions": 1, "rounds": n + 1, "sp": sp}
        return out

def last(t): return t[0] if isinstance(t, tuple) and t else None

class Files:
    """call_hook: paths are terms over the root, the working directory and what the program is given; everything but path handling is left open."""
    def __init__(s, R, I, files):
        s.R = R; s.I = I; s.files = files; s.sinks = {}; s.cache = {}; s.stack = []; s.checked = {}; s.more = set()
    # -- terms
    def term(s, st, v):
        v = peel(s.I, st, v)
        while isinstance(v, Obj) and v.tag in ("box", "arc", "cow"): v = peel(s.I, st, v.f[0])
        if isinstance(v, Obj) and v.tag == "path": return v.f[0]
        if isinstance(v, Sym): return ("sym", v.key)
        if isinstance(v, Seq):
            if all(x[0] == "el" and isinstance(x[1], Lin) and x[1].is_const() for x in v.segs): return ("lit", "".join(chr(x[1].c) for x in v.segs))
            return ("text", v.k())
        return ("?", repr(v)[:80])
    def plain(s, st, t):
        """A relative path of ordinary names only."""
        if t[0] == "name": return st.ghost.get("absent:" + repr(t[1])) is True      # otherwise it may be a link leading elsewhere
        if t[0] == "lit": return t[1] not in ("", "..", ".") and "/" not in t[1] and "\\" not in t[1] and ":" not in t[1]
        if t[0] == "rel": return s.inside(st, t[1])
        if t[0] == "join": return s.plain(st, t[1]) and s.plain(st, t[2])
        return False
    def inside(s, st, t):
        if t in (ROOT, CROOT) or t[0] == "in": return True
        if t[0] == "canon": return st.ghost.get("in:" + repr(t)) is True or s.inside(st, t[1]) and t[1][0] != "join"
        if t[0] == "join":
            if s.inside(st, t[1]) and (s.plain(st, t[2]) or t[2] in (("lit", ""), ("lit", "."))): return True
        return False
    def canon_inside(s, st, t): return s.inside(st, t) and t[0] in ("canon", "in")
    def isroot(s, st, t): return t == CROOT
    def pathv(s, c, term): return s.wrap(c.dty, Obj("path", term))
    def wrap(s, ty, v):
        return VRef(v) if s.I.ty(ty)["k"] == "ref" else v
    def ok(s, c, st, v): return okv(c.dty, v)
    def err(s, c): 
        t = s.I.ty(c.dty)["args"]; return Agg(c.dty, 1, (s.I.mkval(s.I.fresh("ioerr"), t[1]),))
    def check(s, st, c, rule, key, ok, detail):
        if not s.I.record: s.R.ob(rule, key, ok, detail, rel(c.fn.where(c.sp)) if c.fn and c.sp else "")
    # -- calls
    def local(s, c):
        i = c.f.get("id")
        if i is None: return None
        return s.I.cr.fns[i]
    def opaque(s, c, st, args, what=None):
        I = s.I; st = st.copy()
        outs = [st]
        for a in args:
            b = a
            for _ in range(3):
                if isinstance(b, VRef): b = b.v
                elif isinstance(b, MRef):
                    try: b = I.rd(st, b.loc, b.path)
                    except Imprecise: break
            if isinstance(b, Agg) and b.ty is not None and I.ty(b.ty)["k"] == "closure" and I.ty(b.ty).get("inst") is not None:
                f = I.closure_fn(b)
                if not any(f.file.endswith(x) for x in s.files) or not s.leads(f): continue
                nxt = []
                for x in outs:
                    extra = [I.mkval(I.fresh("cl"), f.locals[k]["ty"]) for k in range(2, f.nargs + 1)]
                    rs = I.call_value(x.copy(), a, extra, c.d, c.t, c.fn)
                    for y, r in rs: s.passed(c, y, f, r, extra)
                    nxt += [y for y, _ in rs] + [x]
                outs = nxt[:8]
            for r in mrefs(a):
                for x in outs:
                    try: I.havoc(x, r)
                    except Imprecise: pass
        return [(x, I.mkval(I.fresh("op:" + (what or c.path)), c.dty)) for x in outs]
    def passed(s, c, st, f, r=None, extra=()): pass
    def hook(s, c, st, np, args):
        I = s.I; nm = np.split("::")[-1]; f = s.local(c)
        if f is not None:
            if f.path in s.stack: return s.recursive(c, st, f, args)
            if not any(f.file.endswith(x) for x in s.files) and not s.leads(f) and not re.search(r"core/src/(result|option|ops/(try_trait|function|control_flow)|convert/mod)\.rs$", f.file): return s.special(c, st, np, args, f) or s.opaque(c, st, args)
            if s.pathfn(f) and s.calls_itself(f):
                s.verify(f); return s.recursive(c, st, f, args)
            return None
        r = s.special(c, st, np, args, None)
        if r is not None: return r
        if SINK_F.match(np) or np in s.more:
            return s.sink(c, st, np, nm, args)
        if np.startswith("std::fs::canonicalize"): return s.path_call(c, st, np, "canonicalize", args)
        ispath = np.startswith("std::path::") or re.match(r"^<(std::path::|&std::path::|alloc::string::String as core::convert::AsRef<std::path|str as core::convert::AsRef<std::path)", np) or any("std::path::Path" in I.ty(a)["s"] for a in c.t.get("atys", ())[:1])
        if ispath and args:
            r = s.path_call(c, st, np, nm, args)
            if r is not None: return r
        mod = I.models.get(np) or I.models.get(norm_path(c.f["path"])) or (c.f.get("trait") and TRAITS.get((c.f["trait"].split("::")[-1], c.f["name"])))
        if mod is None: return s.opaque(c, st, args)
        if "core::iter" in (c.f.get("trait") or "") or "core::cmp" in (c.f.get("trait") or "") or "core::fmt" in np or "alloc::fmt" in np or np.startswith("slice::") or "Vec" in np or "str::" in np:
            v = peel(I, st, args[0]) if args else None
            if not isinstance(v, Seq) or "fmt" in np: return s.opaque(c, st, args)
        return None
    def loose(s, st, f, args, d, t, fn):
        """A call which could not be followed: must not be one that leads to a file."""
        c = models.C(s.I, f, d, t, fn, norm_path(f.get("rpath") or f["path"]))
        g = s.local(c)
        s.check(st, c, "inside", f"{strip_closure(c.path)} understood", g is None or not s.leads(g), f"{c.path} uses files and could not be analysed")
        return s.opaque(c, st, args)
    def leads(s, f):
        from graph import graph, norm
        if not hasattr(s, "_leads"):
            g = graph(); hot = {k for k, n in g.nodes.items() if any(SINK_F.match(x.path) or x.path.startswith("std::path::Path::") and x.name in SINK_P for x in n.ext)}
            q = list(hot)
            while q:
                for r in g.rev.get(q.pop(), ()):
                    if r not in hot: hot.add(r); q.append(r)
            s._leads = hot
        return f"{f.crate.name}::{norm(f.path)}" in s._leads
    def special(s, c, st, np, args, f): return None
    def path_call(s, c, st, np, nm, args):
        I = s.I
        def t(k): return s.term(st, args[k])
        if nm in SAME:
            return [(st, s.wrap(c.dty, peel(I, st, args[0]) if not isinstance(peel(I, st, args[0]), Sym) else Obj("path", t(0))))] if I.adt_path(c.dty) not in ("core::option::Option", "core::result::Result") else \
                   s.opaque(c, st, args)
        if nm == "join":
            a, b = t(0), t(1)
            return [(st, s.pathv(c, a if b == ("lit", ".") else ("join", a, b)))]
        if nm == "canonicalize":
            a = t(0)
            return [(st.copy(), s.ok(c, st, Obj("path", a if a[0] == "canon" else ("canon", a)))), (st.copy(), s.err(c))]
        if nm == "starts_with":
            a, b = t(0), t(1); y = st.copy()
            if a[0] == "canon" and s.isroot(st, b): y.ghost["in:" + repr(a)] = True
            return [(y, True), (st.copy(), False)]
        if nm == "strip_prefix":
            a, b = t(0), t(1); y = st.copy(); out = ("?", "rest")
            if a[0] == "canon" and b[0] == "lit" and not b[1].startswith(("/", "\\")):      # what is canonical is absolute
                ty = I.ty(c.dty)["args"]; return [(y, Agg(c.dty, 1, (I.mkval(I.fresh("pe"), ty[1]),)))]
            if a[0] == "canon" and s.isroot(st, b): y.ghost["in:" + repr(a)] = True; out = ("rel", a)
            ty = I.ty(c.dty)["args"]
            return [(y, okv(c.dty, s.wrap(ty[0], Obj("path", out)))), (st.copy(), Agg(c.dty, 1, (I.mkval(I.fresh("pe"), ty[1]),)))]
        if nm in ("parent", "file_name"):
            ty = I.ty(c.dty)["args"]
            v = s.wrap(ty[0], Obj("path", ("parent" if nm == "parent" else "name", t(0))))
            return [(st.copy(), Agg(c.dty, 1, (v,))), (st.copy(), Agg(c.dty, 0, ()))]
        if nm == "symlink_metadata":
            y = st.copy(); y.ghost["absent:" + repr(t(0))] = True; ty = I.ty(c.dty)["args"]
            return [(st.copy(), okv(c.dty, I.mkval(I.fresh("meta"), ty[0]))), (y, s.err(c))]
        if nm in LOOK: return s.opaque(c, st, args)
        if nm in SINK_P: return s.sink(c, st, np, nm, args)
        return s.opaque(c, st, args)
    def sink(s, c, st, np, nm, args):
        a = s.term(st, args[1] if nm == "open" and "OpenOptions" in np else args[0])
        ok = s.inside(st, a) or (nm.startswith("create_dir_all") and a[0] == "parent" and s.inside(st, a[1]))
        w = rel(c.fn.where(c.sp))
        if not s.I.record:
            s.sinks[(c.fn.path, nm)] = w; s.R.saw("file accesses", f"{w} {np}")
        s.check(st, c, "inside", f"{strip_closure(c.fn.path)} {nm}", ok, f"{np} is given {show_term(a)}, which may lie outside the root directory")
        if nm in ("rename", "copy", "hard_link", "soft_link") and len(args) > 1:
            b = s.term(st, args[1]); s.check(st, c, "inside", f"{strip_closure(c.fn.path)} {nm} to", s.inside(st, b), f"{np} is given {show_term(b)}")
        out = s.opaque(c, st, args)
        for x, _ in out: x.ghost["last"] = Obj("path", a)
        return out
    # -- recursive functions returning a path: by induction every path they return lies inside
    def pathfn(s, f):
        return "std::path::PathBuf" in s.I.ty(f.locals[0]["ty"])["s"]
    def verify(s, f):
        """A function which gives a path: for every argument each path it gives lies inside (needed when it calls itself)."""
        if f.path in s.checked or f.path in s.stack: return s.checked.get(f.path)
        if not s.calls_itself(f): return None
        s.checked[f.path] = None; s.stack.append(f.path)
        I = s.I; st = State(); args = [s.argval(f, k) for k in range(1, f.nargs + 1)]; good = True
        c0 = I.chain; I.chain = []
        try:
            for x, r in I.call_fn(st, f, args, 1):
                for v in paths_in(I, x, r):
                    ok = s.inside(x, v)
                    if not I.record: s.R.ob("inside", f"{strip_closure(f.path)} gives", ok, f"{f.path} gives {show_term(v)}, which may lie outside the root directory", rel(f.where()))
                    good &= ok
        finally: s.stack.pop(); I.chain = c0
        s.checked[f.path] = good; return good
    def calls_itself(s, f):
        seen = set(); q = [f]
        while q:
            g = q.pop()
            for b in g.blocks:
                t = b["t"]
                ids = []
                if t["k"] == "call" and t.get("f") and t["f"].get("id") is not None: ids.append(t["f"]["id"])
                for ty in (t.get("atys") or ()) if t["k"] == "call" else ():
                    tt = s.I.ty(ty)
                    if tt["k"] == "closure" and tt.get("inst") is not None: ids.append(tt["inst"])
                for i in ids:
                    h = s.I.cr.fns[i]
                    if h.path == f.path: return True
                    if h.path not in seen and any(h.file.endswith(x) for x in s.files): seen.add(h.path); q.append(h)
        return False
    def recursive(s, c, st, f, args):
        I = s.I; t = I.ty(c.dty)
        p = Obj("path", ("in", I.fresh("rec")))
        if t.get("path") == "core::result::Result": return [(st.copy(), okv(c.dty, p)), (st.copy(), s.err(c))]
        if t.get("path") == "core::option::Option": return [(st.copy(), Agg(c.dty, 1, (p,))), (st.copy(), Agg(c.dty, 0, ()))]
        return [(st, p)]
    def argval(s, f, k):
        ty = f.locals[k]["ty"]; I = s.I; t = I.ty(ty)
        s_ = t["s"]
        if re.search(r"eval::Context", s_): return s.context(ty)
        if t["k"] == "ref" and re.search(r"RunState$", s_): return VRef(s.state(t["to"]))
        if t["k"] == "ref" and "std::path::Path" in s_: return VRef(Obj("path", ("sym", ("arg", f.path, k))))
        return I.mkval(("arg", f.path, k), ty)
    def context(s, ty):
        I = s.I; t = I.ty(ty)
        if t["k"] == "ref": return VRef(s.context(t["to"]))
        fs = t["variants"][0]["fields"]
        return Agg(ty, None, [VRef(Obj("path", ROOT)) if g["name"] == "root" else VRef(Obj("path", ("wd",))) if g["name"] == "wd" else I.mkval(("cx", g["name"]), g["ty"]) for g in fs])

    def state(s, ty):
        fs = s.I.ty(ty)["variants"][0]["fields"]
        return Agg(ty, None, [Obj("path", ROOT) if g["name"] == "root" else s.I.mkval(("rs", g["name"]), g["ty"]) for g in fs])

def strip_closure(p): return re.sub(r"(::\{closure#\d+\})+$", "", p).replace("lang::impls::intrinsics::", "")
def show_term(t):
    if not isinstance(t, tuple): return str(t)
    k = t[0]
    if k == "root": return "the root"
    if k == "wd": return "the working directory"
    if k in ("sym", "text"): return "a given path"
    if k == "lit": return repr(t[1])
    if k == "canon": return f"canonical({show_term(t[1])})"
    if k == "join": return f"{show_term(t[1])}/{show_term(t[2])}"
    if k == "rel": return f"{show_term(t[1])} relative to the root"
    if k in ("parent", "name"): return f"{k} of {show_term(t[1])}"
    return k

def paths_in(I, st, v):
    v = peel(I, st, v)
    if isinstance(v, Obj): return [v.f[0]] if v.tag == "path" else [p for x in v.f if isinstance(x, V) for p in paths_in(I, st, x)]
    if isinstance(v, Agg): return [p for x in v.f if isinstance(x, V) for p in paths_in(I, st, x)]
    if isinstance(v, Sym) and "std::path::PathBuf" in I.ty(v.ty)["s"] and I.adt_path(v.ty) == "std::path::PathBuf": return [("sym", v.key)]
    return []

def contained(R):
    R.rule("anchor", "the commands which use files and their code are found")
    R.rule("inside", "every path which a command opens, lists, creates or writes is the canonical form of what it was given, found to lie below the canonical root, or names new things below such a path")
    R.rule("shell", "every directory the shell remembers as a tab's working directory is the root or the relative form of a canonical path below it; batch files are read only from inside")
    absint.REGIONS.clear()
    cr = crate("ws", "ogma"); I = Loose(cr)
    H = Files(R, I, (IO,)); I.call_hook = H.hook; I.loose_hook = H.loose
    run_evaluators(R, cr, I, H)
    reached(R, H)
    shell(R)
    R.floor("anchor", "file accesses", 5); R.floor("anchor", "evaluators", 4)
    finish(R, I)
    return H

BATCH = "ogma::rt::bat::parse_file"
class ShellFiles(Files):
    """The shell: the batch files it reads and the working directories it remembers."""
    def special(s, c, st, np, args, f):
        if c.f["name"] == "insert" and "HashMap" in np and len(args) == 3 and "std::path::PathBuf" in s.I.tys_of(args[2], c) :
            a = s.term(st, args[2]); ok = a == ROOT or a[0] == "rel" and s.inside(st, a[1])
            if not s.I.record: s.sinks[(c.fn.path, "insert")] = rel(c.fn.where(c.sp)); s.R.saw("working directories", rel(c.fn.where(c.sp)))
            s.check(st, c, "shell", f"{strip_closure(c.fn.path)} directory", ok, f"the working directory becomes {show_term(a)}")
        return None

def shell(R):
    cr = crate("ws", "ogma_shell"); I = Loose(cr); H = ShellFiles(R, I, ("ogma-shell/lib.rs",)); H.more = {BATCH, "rt::bat::parse_file"}
    I.call_hook = H.hook; I.loose_hook = H.loose
    I.tys_of = lambda v, c: cr.tys(c.t["atys"][2])
    roots = {}
    def wants(t): return t["k"] == "call" and t.get("f") and (norm_path(t["f"].get("rpath") or t["f"]["path"]) in H.more or t["f"]["name"] == "insert" and "HashMap" in t["f"]["path"] and "std::path::PathBuf" in cr.tys(t["atys"][-1]))
    for f in cr.fns:
        if f.local and f.file.endswith("ogma-shell/lib.rs") and any(wants(b["t"]) for b in f.blocks if not b.get("c")):
            p = re.sub(r"(::\{closure#\d+\})+$", "", f.path)
            for g in cr.fns:
                if g.local and g.path == p: roots[p] = g
    R.ob("anchor", "shell", len(roots) >= 2, f"only {sorted(roots)} found to open batch files or set a working directory")
    for p, f in roots.items():
        R.saw("shell functions", p)
        I.call_fn(State(), f, [H.argval(f, k) for k in range(1, f.nargs + 1)], 0)
    R.floor("anchor", "working directories", 1)

def is_eval(f): return f.closure_of and f.nargs >= 2 and any(re.search(r"eval::Context", f.crate.tys(f.locals[k]["ty"])) for k in range(2, f.nargs + 1))

def reached(R, H):
    """Every file access which evaluating anything may lead to is one of those looked at."""
    from graph import graph
    g = graph()
    roots = [k for k, n in g.nodes.items() if n.crate == "ogma" and is_eval(n.fns[0])]
    R.ob("anchor", "evaluation closures", len(roots) >= 60, f"{len(roots)} found, at least 60 expected")
    R.saw("evaluation closures", *roots)
    pre = g.reach(roots); seen = set(H.sinks.values())
    for k in pre:
        for x in g.nodes[k].ext:
            if SINK_F.match(x.path) or x.path.startswith("std::path::Path::") and x.name in SINK_P:
                R.ob("inside", f"{strip_closure(k)} {x.name} looked at", x.where in seen, f"evaluation may lead to {x.path} at {x.where} by {g.trace(pre, k)}, not as one of the accesses that were found to stay inside", x.where)

def run_evaluators(R, cr, I, H):
    ev = {}
    for f in cr.fns:
        if f.local and f.file.endswith(IO) and is_eval(f): ev[f.path] = f     # instances come last
    for f in ev.values():
        R.saw("evaluators", f.path)
        env = I.mkval(("env", f.path), f.locals[1]["ty"])
        I.call_fn(State(), f, [env] + [H.argval(f, k) for k in range(2, f.nargs + 1)], 0)
