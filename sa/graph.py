"""Engine B: the call graph of the whole workspace with effect summaries, lock regions and typed values.

Nodes are the functions and closures of the workspace crates (all bodies that share a definition path are one node). Edges over-approximate calls:
direct calls; trait calls to every implementation in the workspace (narrowed when the receiver's type is a known workspace or foreign type);
calls of `dyn` values to every implementation of the trait; a function or closure value counts as called by whoever mentions it;
foreign functions that receive a workspace type reach that type's implementations of foreign traits; dropping reaches Drop implementations.
Calls of `dyn Fn` values and of generic callables are not followed: the closure is charged to the function that wrote it."""
import re
from facts import strip_generics
from core import crate, rel

WS = ("libs", "ogma", "ogma_ls", "ogma_shell", "ogma_bin")
_PRE = re.compile(r"\b(?:" + "|".join(WS) + r")::")
REGISTER = ("insert_intrinsic",)     # passing a function to these stores it; it is not called (the closure edge of its maker is kept)
FN_TRAITS = ("core::ops::function::Fn", "core::ops::function::FnMut", "core::ops::function::FnOnce")

def norm(p): return _PRE.sub("", p)

def dyn_name(t):
    t = re.sub(r"'\w+ ?|for<[^>]*> ?", "", norm(t))
    return re.sub(r" \+ (core::marker::)?(Send|Sync)|\s+$", "", t)

class Node:
    def __init__(s, key, crate_name): s.key = key; s.crate = crate_name; s.fns = []; s.out = {}; s.ext = []; s.ind = []; s.sites = {}; s.extat = {}; s.virt = {}; s.made = set(); s.inst = {}
    @property
    def path(s): return s.key
    @property
    def short(s): return s.fns[0].path
    def where(s): return rel(s.fns[0].where())
    @property
    def file(s): return rel(s.fns[0].file)
    @property
    def parent(s): return s.fns[0].closure_of
    def __repr__(s): return f"Node({s.key})"

class Ext:
    """A call of a function outside the workspace."""
    __slots__ = ("path", "name", "t", "fn", "where", "kind", "f", "blk")
    def __init__(s, path, name, t, fn, where, kind, blk): s.path = path; s.name = name; s.t = t; s.fn = fn; s.where = where; s.kind = kind; s.f = t.get("f") or {}; s.blk = blk

def span(t, fn):
    sp = t.get("sp") or t.get("span")
    return rel(fn.where(sp)) if isinstance(sp, list) and sp and isinstance(sp[0], str) else rel(fn.where())

class Graph:
    def __init__(s, names=WS):
        s.crates = {n: crate("ws", n) for n in names}
        s._self = None; s._adts = None; s.nodes = {}; s._ot = {}; s._fi = {}; s._dyn = None
        for n, c in s.crates.items():
            seen = set()
            for f in c.fns:
                if not f.local or (f.path, tuple(f.span[:3])) in seen: continue
                seen.add((f.path, tuple(f.span[:3])))      # the definition's own (polymorphic) body comes before its instances
                k = f"{n}::{norm(f.path)}"
                s.nodes.setdefault(k, Node(k, n)).fns.append(f)
        s.by_norm = {}
        for k, nd in s.nodes.items(): s.by_norm.setdefault(k.split("::", 1)[1], []).append(nd)
        # trait name -> [(self type string, {method name: node})] ; foreign traits of workspace types
        s.impls = {}; s.drops = {}
        for n, c in s.crates.items():
            for im in c.impls:
                ms = {}
                for it in im["items"]:
                    for nd in s.by_norm.get(norm(it), ()):
                        if nd.crate == n: ms[it.rsplit("::", 1)[-1]] = nd
                t = strip_generics(norm(im["trait"])) if im["trait"] else None
                t = t.split("<")[0] if t else t
                s.impls.setdefault(t, []).append((norm(im["self"]), ms, n))
                if t == "core::ops::drop::Drop" and "drop" in ms: s.drops[strip_generics(norm(im["self"])).split("<")[0]] = ms["drop"]
        s.rev = {}
        for nd in list(s.nodes.values()):
            for f in nd.fns: s.edges(nd, f)
        for nd in s.nodes.values():
            for o in nd.out: s.rev.setdefault(o, set()).add(nd.key)

    def lookup(s, path, cr):
        l = s.by_norm.get(norm(path))
        if not l: return []
        m = re.match(r"^[<&]*(" + "|".join(WS) + r")::", path)
        if m:
            x = [n for n in l if n.crate == m.group(1)]
            if x: return x
        x = [n for n in l if n.crate == cr]
        return x or l

    def own_types(s, cr, i):
        """Paths of workspace ADTs and closures mentioned in a type."""
        k = (cr.name, i)
        if k not in s._ot: s._ot[k] = s.own_types_(cr, i)
        return s._ot[k]
    def own_types_(s, cr, i, seen=None, depth=0):
        seen = seen if seen is not None else set()
        if i in seen or depth > 8: return set()
        seen.add(i); t = cr.ty(i); out = set()
        if t["k"] == "adt":
            p = norm(t["path"])
            if t.get("crate") in WS or t["path"].split("::")[0] not in ("core", "alloc", "std"): out.add(strip_generics(p))
            for a in t.get("args", ()):
                if isinstance(a, int): out |= s.own_types_(cr, a, seen, depth + 1)
        else:
            for k in ("ty", "elem", "to", "of"):
                if isinstance(t.get(k), int): out |= s.own_types_(cr, t[k], seen, depth + 1)
            for k in ("tys", "elems", "args", "fields"):
                for a in t.get(k) or ():
                    if isinstance(a, int): out |= s.own_types_(cr, a, seen, depth + 1)
        return out

    def head(s, cr, i):
        """The head of a receiver type behind references: (kind, path)."""
        for _ in range(8):
            t = cr.ty(i)
            if t["k"] == "ref" and isinstance(t.get("to", t.get("ty")), int): i = t.get("to", t.get("ty")); continue
            break
        return t["k"], strip_generics(norm(t.get("path", t["s"]))), i

    def ctor(s, nd, cal):
        """A tuple constructor used as a function makes its type."""
        p = strip_generics(norm(cal["path"])).split("<")[0]
        nd.made.add(p); nd.made.add(p.rsplit("::", 1)[0])

    def add(s, a, b, why, where):
        if b is a: return
        a.out.setdefault(b.key, (why, where))

    def fnval(s, nd, c, f, where):
        """A mention of a function or closure value."""
        if c["k"] == "fn":
            cal = c["callee"]
            for x in s.lookup(cal.get("rpath") or cal["path"], f.crate.name): s.add(nd, x, "mentions", where)
            s.trait_targets(nd, cal, f, where)
        elif c["k"] == "adt":
            for x in c["fields"]: s.fnval(nd, x, f, where)
        elif c["k"] == "ref": s.fnval(nd, c["v"], f, where)

    def trait_targets(s, nd, cal, f, where):
        kind = cal.get("kind"); tr = cal.get("trait"); out = set()
        if not tr: return out
        tr = strip_generics(norm(tr)).split("<")[0]
        if tr in FN_TRAITS: return out
        if kind not in ("unresolved", "virtual"): return out
        m = cal["name"]; cands = s.impls.get(tr, ())
        head = None
        if isinstance(cal.get("self"), int): head = s.head(f.crate, cal["self"])
        for st, ms, cn in cands:
            if m not in ms: continue
            if head and head[0] == "adt" and strip_generics(st).lstrip("&").split("<")[0] != head[1].split("<")[0] and not re.fullmatch(r"[A-Z]\w?", st): continue
            s.add(nd, ms[m], "trait call", where); out.add(ms[m].key)
        for x in s.lookup(cal["path"], f.crate.name): s.add(nd, x, "trait default", where); out.add(x.key)      # provided methods
        return out

    def closures_in(s, cr, i):
        k = ("clo", cr.name, i)
        if k not in s._ot:
            out = []; seen = set(); q = [i]
            while q:
                j = q.pop()
                if j in seen or len(seen) > 400: continue
                seen.add(j); t = cr.ty(j)
                if t["k"] == "closure": out += s.lookup(t["path"], cr.name); q += [a for a in t.get("upvars", ()) if isinstance(a, int)]
                elif t["k"] == "fndef": out += s.lookup(t["callee"].get("rpath") or t["callee"]["path"], cr.name)
                for kk in ("to", "elem"):
                    if isinstance(t.get(kk), int): q.append(t[kk])
                for kk in ("args", "elems"):
                    q += [a for a in t.get(kk) or () if isinstance(a, int)]
            s._ot[k] = out
        return s._ot[k]

    def foreign_targets(s, nd, cal, f, where):
        """A foreign generic function may use what its type arguments implement."""
        ts = set(); out = set()
        for a in cal.get("args", ()):
            if isinstance(a, int): ts |= s.own_types(f.crate, a)
        if isinstance(cal.get("self"), int): ts |= s.own_types(f.crate, cal["self"])
        if not ts: return out
        for h in ts:
            for t, m in s.foreign_impls(h):
                if t.endswith("::Debug") and "fmt" not in cal["path"]: continue
                s.add(nd, m, "foreign code may call", where); out.add(m.key)
        return out

    def foreign_impls(s, h):
        if not s._fi:
            for t, l in s.impls.items():
                if t is None or t.split("::")[0] not in ("core", "std", "alloc", "serde"): continue
                for st, ms, cn in l:
                    k = strip_generics(st).lstrip("&").replace("mut ", "").split("<")[0]
                    s._fi.setdefault(k, []).extend((t, m) for m in ms.values())
        return s._fi.get(h, ())

    def edges(s, nd, f):
        cr = f.crate
        def operand(o, where):
            if o["o"] == "const":
                s.fnval(nd, o["c"], f, where)
                c = o["c"]
                if isinstance(c.get("ty"), int): nd.made |= s.own_types(cr, c["ty"])
                if c["k"] == "fn": s.ctor(nd, c["callee"])
        for bi, b in enumerate(f.blocks):
            if b.get("c"): continue
            for st in b["s"]:
                if st["k"] != "=": continue
                r = st["r"]; w = rel(f.where(st["sp"])) if isinstance(st.get("sp"), list) else rel(f.where())
                if r["r"] == "agg":
                    if isinstance(r.get("ty"), int) and cr.ty(r["ty"])["k"] == "adt": nd.made.add(s.head(cr, r["ty"])[1].split("<")[0])
                    if r["kind"] in ("closure", "coroutine"):
                        p = cr.ty(r["ty"]).get("path") or cr.ty(r["ty"]).get("def")
                        for x in (s.lookup(p, cr.name) if p else ()): s.add(nd, x, "closure", w)
                    for o in r["ops"]: operand(o, w)
                for k in ("a", "b"):
                    if isinstance(r.get(k), dict) and "o" in r[k]: operand(r[k], w)
            t = b["t"]
            if t["k"] == "drop" and t.get("needs"):
                for p in s.drop_types(cr, t["ty"]):
                    s.add(nd, s.drops[p], "drop", span(t, f))
            if t["k"] != "call": continue
            w = span(t, f)
            cal = t.get("f")
            if cal: s.ctor(nd, cal)
            if not (cal and cal["name"] in REGISTER):
                for a in t["args"]: operand(a, w)
            if not cal: nd.ind.append((t, f, w)); continue
            path = cal.get("rpath") or cal["path"]
            xs = s.lookup(path, cr.name) if cal.get("kind") == "item" else []
            if cal.get("kind") == "virtual":
                d = s.dyn_of(cr, cal.get("self", t["atys"][0] if t["atys"] else None))
                if d: nd.virt.setdefault(d, (f, bi, w))
            site = nd.sites.setdefault((id(f), bi), set())
            site |= {x.key for x in xs}
            for x in xs: s.add(nd, x, "call", w)
            site |= s.trait_targets(nd, cal, f, w)
            for a in t["args"]:
                if a["o"] == "const" and a["c"]["k"] == "fn": site |= {x.key for x in s.lookup(a["c"]["callee"].get("rpath") or a["c"]["callee"]["path"], cr.name)}
            for ty in t["atys"]: site |= {x.key for x in s.closures_in(cr, ty)}
            if not xs and not (cal.get("local") or cal["path"].split("::")[0] in WS):
                nd.ext.append(Ext(strip_generics(path), cal["name"], t, f, w, cal.get("kind"), bi)); nd.extat[(id(f), bi)] = nd.ext[-1]
                site |= s.foreign_targets(nd, cal, f, w)

    def dyn_of(s, cr, i):
        """The name of the `dyn` type behind references and boxes."""
        for _ in range(8):
            if not isinstance(i, int): return None
            t = cr.ty(i)
            if t["k"] == "dyn": return dyn_name(t["s"])
            if t["k"] in ("ref", "ptr"): i = t.get("to")
            elif t["k"] == "adt" and t.get("args"): i = next((a for a in t["args"] if isinstance(a, int)), None)
            else: return None
        return None

    def dyn_map(s):
        """dyn type -> {nodes of the closures and functions turned into values of that type}; instances of generic functions included"""
        if s._dyn is None:
            s._dyn = {}
            for n, c in s.crates.items():
                for f in c.fns:
                    for b in f.blocks:
                        if b.get("c"): continue
                        for st in b["s"]:
                            r = st.get("r")
                            if st["k"] != "=" or r["r"] != "cast" or "nsize" not in str(r.get("kind")): continue
                            d = s.dyn_of(c, r["ty"])
                            if not d: continue
                            o = r["a"]; ty = f.locals[o["p"][0]]["ty"] if o["o"] in ("move", "copy") else o["c"].get("ty")
                            if isinstance(ty, int): s._dyn.setdefault(d, set()).update(x.key for x in s.closures_in(c, ty))
        return s._dyn

    def dyn_targets(s, keys):
        """What the virtual calls of these functions may run, transitively closed over virtual calls."""
        m = s.dyn_map(); out = set(); q = list(keys); seen = set(keys)
        while q:
            k = q.pop()
            for d in s.nodes[k].virt:
                for x in m.get(d, ()):
                    if x not in out:
                        out.add(x)
                        for y in s.reach([x]):
                            if y not in seen: seen.add(y); q.append(y)
        return out

    def drop_types(s, cr, i, seen=None, depth=0):
        seen = seen if seen is not None else set()
        if i in seen or depth > 10: return set()
        seen.add(i); t = cr.ty(i); out = set()
        if t["k"] == "adt":
            p = strip_generics(norm(t["path"])).split("<")[0]
            if p in s.drops: out.add(p)
            for v in t.get("variants") or ():
                for fl in v.get("fields") or ():
                    if isinstance(fl.get("ty"), int): out |= s.drop_types(cr, fl["ty"], seen, depth + 1)
            for a in t.get("args", ()):
                if isinstance(a, int): out |= s.drop_types(cr, a, seen, depth + 1)
        else:
            for k in ("tys", "elems", "fields", "upvars"):
                for a in t.get(k) or ():
                    if isinstance(a, int): out |= s.drop_types(cr, a, seen, depth + 1)
            if t["k"] in ("array", "slice") and isinstance(t.get("elem", t.get("ty")), int): out |= s.drop_types(cr, t.get("elem", t.get("ty")), seen, depth + 1)
        return out

    def reach(s, roots, stop=lambda n: False):
        """{key: predecessor key} of everything reachable."""
        pre = {r: None for r in roots}; q = list(roots)
        while q:
            k = q.pop()
            if stop(s.nodes[k]) and pre[k] is not None: continue
            for o in s.nodes[k].out:
                if o not in pre: pre[o] = k; q.append(o)
        return pre

    def reach_made(s, roots):
        """As `reach`, but a call through a trait (or by foreign code) runs only implementations of types that reachable code makes."""
        if s._self is None:
            s._self = {}
            for t, l in s.impls.items():
                if t is None: continue
                for st, ms, cn in l:
                    h = strip_generics(st).lstrip("&").replace("mut ", "").split("<")[0]
                    for m in ms.values(): s._self.setdefault(m.key, set()).add(h)
        adts = s.adts()
        pre = {r: None for r in roots}; q = list(roots); made = set(); waiting = {}
        while q:
            k = q.pop(); nd = s.nodes[k]
            for h in nd.made - made:
                made.add(h)
                for o, by in waiting.pop(h, ()):
                    if o not in pre: pre[o] = by; q.append(o)
            for o, (why, _) in nd.out.items():
                if o in pre: continue
                hs = s._self.get(o, ())
                if why in ("trait call", "foreign code may call") and hs and all(h in adts for h in hs) and not (set(hs) & made):
                    for h in hs: waiting.setdefault(h, []).append((o, k))
                    continue
                pre[o] = k; q.append(o)
        return pre
    def adts(s):
        if s._adts is None:
            s._adts = set()
            for c in s.crates.values():
                for i in range(len(c.types)):
                    t = c.ty(i)
                    if t["k"] == "adt" and (t.get("crate") in WS or t["path"].split("::")[0] not in ("core", "alloc", "std")): s._adts.add(strip_generics(norm(t["path"])).split("<")[0])
        return s._adts

    def trace(s, pre, k, n=8):
        out = []
        while k is not None: out.append(k); k = pre[k]
        out.reverse()
        return " -> ".join(out if len(out) <= n else out[:2] + ["…"] + out[-(n - 3):])

    def find(s, pat): 
        r = re.compile(pat)
        return [n for k, n in s.nodes.items() if r.search(k)]

_g = None
def graph():
    global _g
    if _g is None: _g = Graph()
    return _g
