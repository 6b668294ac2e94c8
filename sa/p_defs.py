"""Definitions: nothing predefined is displaced, a refused definition changes nothing, clearing is exact (D01)."""
import re
import absint, models
from absint import *
from models import okv, peel, norm_path, target
from core import crate, rel
from p_history import finish
from p_io import Loose, strip_closure
from p_ls import Ls, SAME, STD

FILES = ("lang/defs.rs", "lang/types.rs", "lang/impls/mod.rs")
OWN = re.compile(r"(^|::)(Definitions|Implementations|Types|Keys)$")
NAMES = SAME | {"str", "new", "from", "into", "name", "tag"}
TEXT = re.compile(r"(^|::)(Str|Tag|String|str)$")
OUT = 0         # a slot known to hold nothing

class Open(Loose):
    def call_named(s, st, f, args, d, t, fn):
        try: return super().call_named(st, f, args, d, t, fn)
        except (AttributeError, TypeError, IndexError): return s.loose_hook(st, f, args, d, t, fn)

class Defs(Ls):
    """Monitor: what is known about the slots (name, input type) of the commands and the names of the types."""
    def __init__(s, R, I, cr):
        super().__init__(R, I, FILES); s.cr = cr; s.nested = None; s.only = None; s.visited = set()
    def leads(s, f): return True
    # -- types
    def core(s, ty):
        i = ty; t = s.I.ty(i)
        while t["k"] == "ref": i = t["to"]; t = s.I.ty(i)
        return i, t
    def kind(s, ty):
        """'keys' | 'impl' | 'type' for the maps of definitions."""
        i, t = s.core(ty)
        if t["k"] != "adt" or not t["path"].endswith("HashMap"): return None
        a = [s.I.ty(x)["s"] for x in t["args"] if isinstance(x, int)][:2]
        if len(a) < 2: return None
        if a[1].endswith("::Keys"): return "keys"
        if a[1].startswith("(") and "Implementation," in a[1]: return "impl"
        if a[1].endswith("types::Type") and TEXT.search(a[0]): return "type"
        return None
    def text(s, st, v):
        v = s.val(st, v)
        return s.ident(st, v)
    def where_(s, c): return rel(c.fn.where(c.sp)) if c.fn and c.sp else ""
    # -- slots
    def know(s, st, slot): return st.ghost.get("slot:" + slot)
    def impls(s, ty, key):
        """Every kind of entry a slot may hold: [(location variant + 1, value)]."""
        I = s.I; t = I.ty(ty)       # (Implementation, OperationCategory, HelpMessage)
        out = []; e = t["elems"]
        for v, va in enumerate(I.ty(e[0])["variants"]):
            for l, lv in enumerate(I.ty(s.locty)["variants"]):
                loc = Agg(s.locty, l, [I.mkval((key, v, "loc", l, i), f["ty"]) for i, f in enumerate(lv["fields"])])
                fs = []
                for i, f in enumerate(va["fields"]):
                    ft = I.ty(f["ty"])
                    if f["ty"] == s.locty: fs.append(loc)
                    elif ft.get("path", "").endswith("Box"):
                        b = ft["args"][0]; bf = I.ty(b)["variants"][0]["fields"]
                        fs.append(Obj("box", Agg(b, None, [loc if g["ty"] == s.locty else I.mkval((key, v, "def", g["name"]), g["ty"]) for g in bf])))
                    else: fs.append(I.mkval((key, v, i), f["ty"]))
                impl = Agg(e[0], v, fs)
                out.append((l + 1, Agg(ty, None, [impl] + [I.mkval((key, "x", j), x) for j, x in enumerate(e[1:])])))
        return out
    def forks(s, st, slot, ty):
        """-> [(state, None | entry)] over what the slot may hold."""
        out = []; k = s.know(st, slot)
        for l, v in [(OUT, None)] + s.impls(ty, ("slot", slot)):
            if k is not None and k != l: continue
            y = st.copy(); y.ghost["slot:" + slot] = l; out.append((y, v))
        return out
    def keysty(s): return s.kty
    def keyval(s, st, n):
        """-> [(state, the entries under a name)]"""
        I = s.I; fs = I.ty(s.kty)["variants"][0]["fields"]; out = [(st, [])]
        for i, f in enumerate(fs):
            nxt = []
            for x, vs in out:
                t = I.ty(f["ty"])
                if t.get("path") == "core::option::Option":
                    for y, v in s.forks(x, n + "|any", t["args"][0]): nxt.append((y, vs + [Agg(f["ty"], 0 if v is None else 1, () if v is None else (v,))]))
                else: nxt.append((x, vs + [I.mkval(("tys", n), f["ty"])]))
            out = nxt
        return [(x, Agg(s.kty, None, vs)) for x, vs in out]
    def inner(s, st, v):
        """The name under which a map of typed entries lies."""
        v = peel(s.I, st, v)
        while isinstance(v, Obj) and v.f and not isinstance(v.f[0], str): v = v.f[0]
        return v.key[1] if isinstance(v, Sym) and isinstance(v.key, tuple) and v.key[0] == "tys" else None
    def safe(s, st, n, slot):
        k = s.know(st, slot)
        return st.ghost.get("none:" + n) is True or k is not None and k != s.ogma + 1
    def user(s, st, slot): st.ghost["slot:" + slot] = None; st.ghost["mine:" + slot] = True
    # -- what happens
    def mutated(s, st, v):
        """The map a &mut argument denotes is no longer what it was."""
        try: loc, path = target(s.I, st, v)
        except Imprecise: st.ghost["dirty"] = True; return
        old = s.I.rd(st, loc, path)
        s.I.wr(st, loc, path, s.I.mkval(("changed", s.I.fresh("map")), old.ty) if isinstance(old, (Sym, Agg)) and old.ty is not None else Obj("junk"))
    def keeps(s, st, c, n, slot, kept, loc, where):
        """A clearing pass keeps or drops an entry with this location (None: not known)."""
        fn = strip_closure(c.fn.path) if c is not None and c.fn else "clear"
        def ob(rule, key, ok, d):
            if not s.I.record: s.R.ob(rule, key, ok, d, where)
        if loc == OUT: return
        if kept is not True: ob("predefined", f"{fn} drops", loc is not None and loc != s.ogma + 1, "an entry that may be predefined is dropped")
        if s.only is None: return
        want = loc == s.ogma + 1 or s.only and loc == s.shell + 1
        ob("clear", f"{fn} {'files only' if s.only else 'all'}", loc is not None and kept is want, f"clearing {'the definitions from files' if s.only else 'all user definitions'} {'keeps' if kept else 'drops'} an entry which {'the system defines' if loc == s.ogma + 1 else 'is defined in the shell' if loc == s.shell + 1 else 'comes from a file' if loc else 'may come from anywhere'}")
    def locof(s, st, v):
        """Location variant + 1 of an entry."""
        v = s.val(st, v)
        if isinstance(v, Agg) and s.I.ty(v.ty)["k"] == "tuple": v = s.val(st, v.f[0])
        if not isinstance(v, Agg) or v.var is None: return None
        for f in v.f:
            f = s.val(st, f)
            if isinstance(f, Agg) and f.ty == s.locty: return f.var + 1
            if isinstance(f, Agg) and f.ty is not None and s.I.ty(f.ty)["k"] == "adt":
                for g in f.f:
                    g = s.val(st, g)
                    if isinstance(g, Agg) and g.ty == s.locty: return g.var + 1
        return None
    def stored(s, st, c, n, t, v, where):
        """An entry is stored in the slot (n, t); t is None for any input type."""
        I = s.I; slot = f"{n}|{t or 'any'}"; fn = strip_closure(c.fn.path) if c is not None and c.fn else "?"
        if not I.record:
            s.R.saw("places that store a command", where or fn)
            s.R.ob("predefined", f"{fn} stores", s.safe(st, n, slot) or st.ghost.get("mine:" + slot) is True, "a command is stored where a predefined one may be", where)
        v = s.val(st, v); im = s.val(st, v.f[0]) if isinstance(v, Agg) and v.f else None
        if isinstance(im, Agg) and im.var is not None and I.ty(im.ty)["variants"][im.var]["name"] == "Definition":
            d = s.val(st, im.f[0])
            if isinstance(d, (Agg, Sym)):
                nm = s.text(st, s.field(st, d, "name")); it = s.val(st, s.field(st, d, "in_ty")); var = s.variant(st, it)
                if not I.record:
                    s.R.ob("own", f"{fn} name", nm == n, "a definition is stored under another name than its own", where)
                    s.R.ob("own", f"{fn} input type", var == (0 if t is None else 1) and (t is None or t == s.ident(st, I.mkval(("type", s.text(st, s.payload_(st, it))), s.tyty))), "a definition is stored for another input type than its own", where)
        else:
            if not I.record: s.R.ob("own", f"{fn} kind", isinstance(im, Agg), "what is stored as a command is not known", where)
        s.user(st, slot)
    def payload_(s, st, o): return o.f[0] if isinstance(o, Agg) else s.I.proj(st, o, ("vf", 1, 0))
    def settle(s, st, c=None):
        """Compare the entries that were handed out for writing with what they hold now."""
        I = s.I
        for loc in [l for l in st.mem if l[0] == "H" and isinstance(l[1], tuple) and l[1][0] == "K"]:
            n = loc[1][1]; was = st.ghost.get("K:" + n); now = st.mem[loc]
            if was is None or was == now: continue
            fs = I.ty(s.kty)["variants"][0]["fields"]; where = rel(c.fn.where()) if c is not None and c.fn else ""
            for i, f in enumerate(fs):
                a, b = I.proj(st, was, i), (I.proj(st, now, i) if isinstance(now, (Agg, Sym)) else None)
                if a == b or I.ty(f["ty"]).get("path") != "core::option::Option": continue
                slot = n + "|any"; e = s.val(st, a.f[0]) if isinstance(a, Agg) and a.var == 1 else None
                if isinstance(b, Agg) and b.var == 1:
                    if e is not None and s.val(st, b.f[0]) == e: s.keeps(st, c, n, slot, True, s.locof(st, e), where)
                    else: s.stored(st, c, n, None, b.f[0], where)
                elif isinstance(b, Agg) and b.var == 0: s.keeps(st, c, n, slot, False, s.locof(st, e) if e is not None else s.know(st, slot), where)
                elif not I.record: s.R.ob("predefined", f"{strip_closure(c.fn.path) if c is not None and c.fn else '?'} leaves", False, "what becomes of a command is not known", where)
            st.ghost["K:" + n] = now
    def kept_all(s, st, c):
        """The entries handed out in a clearing pass that were left alone are kept."""
        for loc in [l for l in st.mem if l[0] == "H" and isinstance(l[1], tuple) and l[1][0] == "K" and l[1][1].startswith("each")]:
            n = loc[1][1]; now = st.mem[loc]
            if st.ghost.get("C:" + n): continue
            st.ghost["C:" + n] = True
            if s.only is not None and not s.I.record:
                s.R.ob("clear", f"{strip_closure(c.fn.path) if c is not None and c.fn else 'clear'} typed", st.ghost.get("typed:" + n) is True or st.ghost.get("empty:" + n) is True, "the commands for particular input types are not gone over", s.where_(c) if c is not None else "")
            for i, f in enumerate(s.I.ty(s.kty)["variants"][0]["fields"]):
                if s.I.ty(f["ty"]).get("path") == "core::option::Option":
                    was = s.I.proj(st, st.ghost.get("E:" + n), i)
                    if isinstance(was, Agg) and was.var == 1 and now == st.ghost.get("E:" + n): s.keeps(st, c, n, n + "|any", True, s.locof(st, was.f[0]), "")
    def handed(s, st, n, v):
        loc = ("H", ("K", n)); s.settle(st); st.mem[loc] = v; s.I.htypes[loc] = s.kty
        st.ghost["K:" + n] = v
        return MRef(loc, ())
    def each(s, st, c):
        """One name of the map, whichever it is: -> [(state, &mut its entries)]"""
        n = "each" + repr(s.I.fresh("each").__repr__())
        out = []
        for y, v in s.keyval(st.copy(), n):
            r = s.handed(y, n, v); y.ghost["E:" + n] = v; out.append((y, r))
        return out
    def same(s, c, st, args):
        v = peel(s.I, st, args[0])
        if c.f["name"] != "clone":
            while isinstance(v, Obj) and v.tag in ("arc", "box"): v = peel(s.I, st, v.f[0])
        return [(st, s.wrap(c.dty, v))]
    # -- calls
    def hook(s, c, st, np, args):
        I = s.I; nm = c.f["name"]; f = s.local(c); at = c.t.get("atys") or []
        if not I.record and f is not None and f.local: s.visited.add(f.path)
        if I.ty(c.dty)["k"] == "never" or nm.startswith("panic") and "panick" in np:
            s.settle(st.copy(), c); return []       # what was stored before is there where the assertion is not compiled in
        if nm in ("call", "call_mut", "call_once") and len(args) == 2: return None
        if nm == "process_definition" and s.nested: return s.again(c, st, args)
        if nm in ("eq", "ne") and len(args) == 2 and at and s.core(at[0])[0] == s.locty: return s.loceq(st, args, nm)
        k = s.kind(at[0]) if at and not (f and f.local) else None
        if k and ("HashMap" in np or "Clone" in np or nm in ("clone", "into_iter", "values_mut", "iter_mut", "retain", "clear", "insert", "entry", "get", "get_mut")): return s.mapcall(c, st, args, nm, k)
        if at and not (f and f.local):
            i, t = s.core(at[0])
            if t["k"] == "adt" and re.search(r"Entry$", t["path"]) and isinstance(peel(I, st, args[0]), Obj) and peel(I, st, args[0]).tag == "entry": return s.entry(c, st, args, nm)
            if isinstance(args[0], V) and isinstance(peel(I, st, args[0]), Obj) and peel(I, st, args[0]).tag == "entries": return s.entries(c, st, args, nm)
        if f is not None and f.local:
            if s.inline(f) and not (f.path in s.stack):
                s.stack.append(f.path)
                try: return I.call_fn(st.copy(), f, args, c.d + 1)
                finally: s.stack.pop()
            if nm == "clone" and len(args) == 1 and "Clone" in np: return s.same(c, st, args)
            if nm in NAMES and len(args) == 1 and TEXT.search(s.tname(c.dty)["s"].split("<")[0]): return s.same(c, st, args)
            return s.opaque(c, st, args)
        if f is not None:
            if STD.search(f.file): return None
        if nm in NAMES and len(args) == 1 and (nm in SAME or TEXT.search(s.tname(c.dty)["s"].split("<")[0])): return s.same(c, st, args)
        if nm in ("into", "from") and len(args) == 1 and isinstance(args[0], (Agg, Sym)) and args[0].ty == c.dty: return [(st, args[0])]
        if nm in ("call", "call_mut", "call_once") or nm == "new" and re.search(r"::(Arc|Rc|Box)(::<T>)?::new$", np): return None
        return s.opaque(c, st, args)
    def inline(s, f):
        """Functions that may touch, or tell something about, the definitions."""
        if not any(f.file.endswith(x) for x in s.files): return False
        if f.closure_of: return True
        own = mut = False
        for k in range(1, f.nargs + 1):
            t = s.I.ty(f.locals[k]["ty"]); i, u = s.core(f.locals[k]["ty"])
            if u["k"] == "adt" and (OWN.search(u["path"]) or re.search(r"::(Implementation|TypeDef)$", u["path"])):
                own = True; mut |= t["k"] == "ref" and bool(t["mut"])
        r = s.I.ty(f.locals[0]["ty"])
        return mut or own and (r["k"] in ("bool", "ref") or r["k"] == "tuple" and not r["elems"] or OWN.search(r.get("path", "") or "-") is not None or r.get("path") in ("core::option::Option", "core::result::Result"))
    def opaque(s, c, st, args, what=None):
        """Only what is handed over as mutable may change."""
        at = c.t.get("atys") or []; xs = []
        for a, ty in zip(args, at):
            t = s.I.ty(ty)
            if t["k"] == "ref" and not t["mut"] and isinstance(a, MRef):
                try: a = VRef(s.I.rd(st, a.loc, a.path))
                except Imprecise: pass
            elif t["k"] == "ref" and t["mut"] and not s.I.record and OWN.search(s.core(ty)[1].get("path") or ""):
                s.R.ob("closed", f"{strip_closure(c.fn.path)} hands over", False, f"{c.path} may change the definitions and could not be followed", s.where_(c))
            xs.append(a)
        out = []
        for a in args:
            if not isinstance(a, Agg) or s.I.ty(a.ty)["k"] != "closure" or not s.holds(a.ty): continue
            try: g = s.I.closure_fn(a)
            except Imprecise: continue
            if not any(g.file.endswith(x) for x in s.files) or g.path in s.stack: continue
            s.visited.add(g.path); s.stack.append(g.path); y = st.copy()
            try: res = s.I.call_value(y, a, [s.I.mkval(s.I.fresh("item"), g.locals[k]["ty"]) for k in range(2, g.nargs + 1)], c.d, c.t, c.fn)
            finally: s.stack.pop()
            for z, _ in res: s.settle(z, c); out += super().opaque(c, z, xs + list(args[len(xs):]), what)
        if out: return out + [(st.copy(), s.I.mkval(s.I.fresh("op:" + c.f["name"]), c.dty))]
        return super().opaque(c, st, xs + list(args[len(xs):]), what)
    def holds(s, ty, n=0):
        """A closure that has hold of definitions it may change."""
        t = s.I.ty(ty)
        if t["k"] == "closure": return n < 4 and any(s.holds(u, n + 1) for u in t.get("upvars", ()))
        return t["k"] == "ref" and bool(t["mut"]) and (OWN.search(s.core(ty)[1].get("path") or "") is not None or s.kind(ty) is not None or s.I.ty(t["to"])["k"] == "closure" and s.holds(t["to"], n + 1))
    def again(s, c, st, args):
        y = st.copy(); y.ghost["nested"] = True
        for a in args:
            if isinstance(a, MRef) and OWN.search(s.core(c.t["atys"][args.index(a)])[1].get("path") or ""): s.mutated(y, a)
        return [(y, s.I.mkval(s.I.fresh("definition"), c.dty))]
    def loceq(s, st, args, nm):
        a, b = (s.val(st, x) for x in args); out = []
        def vars_(v): return [(v.var, True)] if isinstance(v, Agg) and v.var is not None else [(i, False) for i in range(len(s.I.ty(s.locty)["variants"]))]
        res = set()
        for i, _ in vars_(a):
            for j, _ in vars_(b):
                n = len(s.I.ty(s.locty)["variants"][i]["fields"])
                res |= {False} if i != j else {True} if not n else {True, False}
        return [(st.copy(), r == (nm == "eq")) for r in sorted(res)]
    def mapcall(s, c, st, args, nm, k):
        I = s.I; w = s.where_(c); t = I.ty(c.dty); fn = strip_closure(c.fn.path)
        if nm == "clone": return [(st, peel(I, st, args[0]))]
        opt = t.get("path") == "core::option::Option"
        if k == "keys":
            if nm in ("get", "contains_key", "get_key_value", "index", "get_mut") and len(args) == 2:
                n = s.text(st, args[1]); out = []
                if nm == "get_mut": return s.some_mut(c, st, n)
                y = st.copy()
                if st.ghost.get("none:" + n) is not False: y.ghost["none:" + n] = True; out.append((y, False if t["k"] == "bool" else Agg(c.dty, 0, ())))
                if st.ghost.get("none:" + n) is not True:
                    z = st.copy(); z.ghost["none:" + n] = False
                    if t["k"] == "bool": out.append((z, True))
                    elif nm == "get" and opt: out += [(x, Agg(c.dty, 1, (VRef(v),))) for x, v in s.keyval(z, n)]
                    else: out.append((z, I.mkval(I.fresh("op:" + nm), c.dty)))
                return out
            if nm == "entry" and len(args) == 2:
                y = st.copy(); s.mutated(y, args[0]); return [(y, Obj("entry", s.text(st, args[1])))]
            if nm in ("values_mut", "iter_mut"):
                y = st.copy(); s.mutated(y, args[0]); y.ghost["all:keys"] = True; return [(y, Obj("entries", nm))]
            if nm == "retain":
                y = st.copy(); s.mutated(y, args[0])
                return s.retain_keys(c, y, args)
            if nm in ("len", "is_empty", "keys", "values", "iter"): return s.opaque(c, st, args)
        if k == "impl":
            n = s.inner(st, args[0])
            if nm in ("get", "contains_key") and len(args) == 2 and n is not None:
                tn = s.ident(st, args[1]); ty = [x for x in I.ty(s.core(c.t["atys"][0])[0])["args"] if isinstance(x, int)][1]
                return [(y, (v is not None) if t["k"] == "bool" else Agg(c.dty, 0 if v is None else 1, () if v is None else (VRef(v),))) for y, v in s.forks(st, f"{n}|{tn}", ty)]
            if nm == "insert" and len(args) == 3 and n is not None:
                y = st.copy(); s.stored(y, c, n, s.ident(st, args[1]), args[2], w); return s.opaque(c, y, args[1:2])
            if nm == "is_empty" and n is not None:
                y = st.copy(); z = st.copy(); y.ghost["empty:" + n] = True; return [(y, True), (z, False)]
            if nm == "retain": return s.retain_impls(c, st, args, n)
            if nm in ("iter", "len", "keys", "values"): return s.opaque(c, st, args)
        if k == "type":
            if nm in ("get", "contains_key", "index") and len(args) == 2:
                n = s.text(st, args[1]); out = []; g = st.ghost.get("type:" + n)
                if g is not True and nm != "index": y = st.copy(); y.ghost["type:" + n] = False; out.append((y, False if t["k"] == "bool" else Agg(c.dty, 0, ())))
                if g is not False:
                    z = st.copy(); z.ghost["type:" + n] = True; v = VRef(I.mkval(("type", n), s.tyty))
                    out.append((z, True if t["k"] == "bool" else Agg(c.dty, 1, (v,)) if opt else v))
                return out
            if nm == "insert" and len(args) == 3:
                n = s.text(st, args[1]); y = st.copy()
                if not I.record:
                    s.R.saw("places that store a type", w)
                    s.R.ob("types", f"{fn} stores", st.ghost.get("type:" + n) is False, "a type is stored under a name that may be taken", w)
                s.mutated(y, args[0]); y.ghost["type:" + n] = True
                v = s.val(st, args[2]); d = s.val(st, v.f[0]) if isinstance(v, Agg) and v.f else None
                if not I.record: s.R.ob("own", f"{fn} type", d is not None and s.text(st, s.field(st, d, "name")) == n, "a type is stored under another name than its own", w)
                return [(y, I.mkval(I.fresh("old"), c.dty))]
            if nm == "retain":
                y = st.copy(); s.mutated(y, args[0]); return s.retain_types(c, y, args)
            if nm in ("iter", "len", "keys", "values"): return s.opaque(c, st, args)
        if not I.record: s.R.ob("closed", f"{fn} {nm}", not (I.ty(c.t["atys"][0])["k"] == "ref" and I.ty(c.t["atys"][0])["mut"]) and k is not None and nm not in ("remove",), f"{c.path} may change the definitions in a way that is not understood", w)
        return s.opaque(c, st, args)
    def some_mut(s, c, st, n):
        out = []
        y = st.copy(); y.ghost["none:" + n] = True; out.append((y, Agg(c.dty, 0, ())))
        z = st.copy(); z.ghost["none:" + n] = False
        for x, v in s.keyval(z, n): x.ghost["dirty"] = True; out.append((x, Agg(c.dty, 1, (s.handed(x, n, v),))))
        return out
    def entry(s, c, st, args, nm):
        n = peel(s.I, st, args[0]).f[0]
        if nm not in ("or_default", "or_insert_with", "or_insert"): return s.opaque(c, st, args)
        out = []; g = st.ghost.get("none:" + n)
        fs = s.I.ty(s.kty)["variants"][0]["fields"]
        if g is not False:
            y = st.copy(); y.ghost["none:" + n] = True; y.ghost["slot:" + n + "|any"] = OUT
            v = Agg(s.kty, None, [Agg(f["ty"], 0, ()) if s.I.ty(f["ty"]).get("path") == "core::option::Option" else s.I.mkval(("tys", n), f["ty"]) for f in fs])
            out.append((y, s.handed(y, n, v)))
        if g is not True:
            for y, v in s.keyval(st.copy(), n): y.ghost["none:" + n] = False; out.append((y, s.handed(y, n, v)))
        return out
    def closure(s, args): return next((a for a in args if isinstance(a, (Agg, VRef)) and isinstance(a if isinstance(a, Agg) else a.v, Agg)), None)
    def entries(s, c, st, args, nm):
        I = s.I; t = I.ty(c.dty)
        if nm in ("into_iter", "by_ref"): return [(st, args[0])]
        if nm == "next":
            y = st.copy(); s.settle(y, c); s.kept_all(y, c)
            ty = t["args"][0]; pair = I.ty(ty)["k"] == "tuple"; out = [(y.copy(), Agg(c.dty, 0, ()))]
            for x, r in s.each(y, c): out.append((x, Agg(c.dty, 1, (Agg(ty, None, [I.mkval(I.fresh("name"), I.ty(ty)["elems"][0]), r]) if pair else r,))))
            return out
        if nm == "for_each":
            out = [(st.copy(), UNIT)]
            for x, r in s.each(st.copy(), c):
                for y, _ in I.call_value(x, args[1], [r if True else None], c.d, c.t, c.fn):
                    s.settle(y, c); s.kept_all(y, c); out.append((y, UNIT))
            return out
        if not I.record: s.R.ob("closed", f"{strip_closure(c.fn.path)} {nm}", False, f"{c.path} goes over the definitions in a way that is not understood", s.where_(c))
        return s.opaque(c, st, args)
    def truth(s, st, r):
        """[(state, bool)] of a predicate's result."""
        if isinstance(r, bool): return [(st, r)]
        out = []
        for b in (True, False):
            try: out += [(y, b) for y in st.copy().assume(r, b)]
            except Exception: out.append((st.copy(), b))
        return out
    def retain_impls(s, c, st, args, n):
        I = s.I; w = s.where_(c); y0 = st.copy(); n = n or "?"
        ts = [x for x in I.ty(s.core(c.t["atys"][0])[0])["args"] if isinstance(x, int)]
        y0.ghost["typed:" + n] = True; slot = n + "|each"; outs = [(y0.copy(), UNIT)]
        for l, v in s.impls(ts[1], ("slot", slot)):
            x = y0.copy(); loc = ("H", ("R", slot)); x.mem[loc] = v; I.htypes[loc] = ts[1]
            for y, r in I.call_value(x, args[1], [VRef(I.mkval(("rt", slot), ts[0])), MRef(loc, ())], c.d, c.t, c.fn):
                for z, b in s.truth(y, r):
                    s.keeps(z, c, n, slot, b, l, w)
                    if not I.record: s.R.ob("closed", f"{strip_closure(c.fn.path)} retain", z.mem.get(loc) == v, "an entry is changed while clearing", w)
        return outs
    def retain_keys(s, c, st, args):
        I = s.I; w = s.where_(c); touched = False; res = []
        for x, r in s.each(st.copy(), c):
            for y, b in [(z, q) for z0, r0 in I.call_value(x, args[1], [VRef(I.mkval(I.fresh("name"), s.strty(c))), r], c.d, c.t, c.fn) for z, q in s.truth(z0, r0)]:
                n = r.loc[1][1]; res.append((y, b, r, n)); touched |= y.ghost.get("typed:" + n) is True or y.mem[r.loc] != y.ghost["E:" + n]
        for y, b, r, n in res:
            v = y.mem[r.loc]; ok = b
            s.settle(y, c)
            if touched: s.kept_all(y, c)
            if not b: ok = y.ghost.get("empty:" + n) is True and all(isinstance(I.proj(y, v, i), Agg) and I.proj(y, v, i).var == 0 for i, f in enumerate(I.ty(s.kty)["variants"][0]["fields"]) if I.ty(f["ty"]).get("path") == "core::option::Option")
            if not I.record: s.R.ob("predefined", f"{strip_closure(c.fn.path)} drops names", ok, "a name is dropped although commands may be left under it", w)
        if touched: st = st.copy(); st.ghost["all:keys"] = True
        return [(st, UNIT)]
    def strty(s, c): return [x for x in s.I.ty(s.core(c.t["atys"][0])[0])["args"] if isinstance(x, int)][0]
    def retain_types(s, c, st, args):
        I = s.I; w = s.where_(c); st.ghost["all:types"] = True
        ts = [x for x in I.ty(s.core(c.t["atys"][0])[0])["args"] if isinstance(x, int)]
        for vi, va in enumerate(I.ty(s.tyty)["variants"]):
            isdef = va["name"] == "Def"
            for l in range(len(I.ty(s.locty)["variants"])) if isdef else (None,):
                if isdef:
                    p = I.ty(va["fields"][0]["ty"]); td = p["args"][0]; lf = I.ty(td)["variants"][0]["fields"]
                    lv = Agg(s.locty, l, [I.mkval(("tl", l, i), f["ty"]) for i, f in enumerate(I.ty(s.locty)["variants"][l]["fields"])])
                    v = Agg(s.tyty, vi, [Obj("arc", Agg(td, None, [lv if g["ty"] == s.locty else I.mkval(("td", g["name"]), g["ty"]) for g in lf]))])
                else: v = Agg(s.tyty, vi, [I.mkval(("tv", vi, i), f["ty"]) for i, f in enumerate(va["fields"])])
                x = st.copy(); loc = ("H", ("R", "type")); x.mem[loc] = v; I.htypes[loc] = s.tyty
                for y, r in I.call_value(x, args[1], [VRef(I.mkval(("rn",), ts[0])), MRef(loc, ())], c.d, c.t, c.fn):
                    for z, b in s.truth(y, r): s.keeps(z, c, "type", "type", b, l + 1 if isdef else s.ogma + 1, w)
        return [(st, UNIT)]

def diff(H, st, a, b):
    """Where the definitions differ."""
    if a == b: return []
    I = H.I
    ty = next((x.ty for x in (a, b) if isinstance(x, (Agg, Sym)) and x.ty is not None), None)
    t = I.ty(ty) if ty is not None else {}
    if t.get("k") == "adt" and OWN.search(t["path"]) and isinstance(a, (Agg, Sym)) and isinstance(b, (Agg, Sym)):
        out = []
        for i, f in enumerate(t["variants"][0]["fields"]):
            out += diff(H, st, I.proj(st, a, i), I.proj(st, b, i))
        return out
    return [I.ty(ty)["s"] if ty is not None else "?"]

def definitions(R):
    R.rule("anchor", "the code that holds, adds and clears definitions is found")
    R.rule("whole", "where adding a definition ends with an error, no command and no type has changed")
    R.rule("predefined", "a command is stored only where it was found that there is none, or one that is not predefined; dropped are only commands found not to be predefined, and names without any")
    R.rule("types", "a type is stored only under a name found not to be taken")
    R.rule("own", "a definition is stored under its own name, for its own input type")
    R.rule("clear", "clearing drops exactly the entries that come from files, and those from the shell unless only files are asked for")
    R.rule("closed", "nothing else changes the commands and types there are")
    absint.REGIONS.clear()
    cr = crate("ws", "ogma"); I = Open(cr); I.lost = {}
    H = Defs(R, I, cr); I.lost["nested"] = True; I.call_hook = H.hook; I.loose_hook = (lambda st, f, args, d, t, fn: H.opaque(models.C(I, f, d, t, fn, norm_path(f.get("rpath") or f["path"])), st, args))
    I.back_hook = lambda st: H.settle(st)
    def adt(pat): return next((i for i, t in enumerate(cr.types) if t["k"] == "adt" and re.search(pat, t.get("path", ""))), None)
    H.locty = adt(r"ast::Location$"); H.kty = adt(r"impls::Keys$"); H.tyty = adt(r"types::Type$")
    ok = R.ob("anchor", "types", None not in (H.locty, H.kty, H.tyty), "the types of the definitions are not found")
    if not ok: return finish(R, I)
    vn = lambda n: next((i for i, v in enumerate(cr.types[H.locty]["variants"]) if v["name"] == n), None)
    H.ogma, H.shell = vn("Ogma"), vn("Shell")
    if not R.ob("anchor", "locations", None not in (H.ogma, H.shell), "the locations of definitions are not found"): return finish(R, I)
    def roots(pat): return [f for f in cr.fns if f.local and re.search(pat, f.path) and any(f.file.endswith(x) for x in FILES)]
    DL = ("H", ("defs",))
    def run(f, given=()):
        st = State(); args = []; it = iter(given)
        R.saw("operations", f.path + "".join(f" {g}" for g in given))
        H.visited.add(f.path)
        for k in range(1, f.nargs + 1):
            ty = f.locals[k]["ty"]; t = I.ty(ty)
            if OWN.search(H.core(ty)[1].get("path") or ""):
                I.htypes[DL] = t["to"]; st.mem[DL] = I.mkval(("defs",), t["to"]); args.append(MRef(DL, ()))
            elif t["k"] == "bool" and given: args.append(next(it))
            else: args.append(I.mkval(("arg", f.path, k), ty))
        was = st.mem[DL]; out = []
        for y, r in I.call_fn(st, f, args, 0):
            H.settle(y, models.C(I, {"name": f.name, "path": f.path}, 0, {}, f, f.path))
            out.append((y, r, diff(H, y, was, y.mem[DL]) + (["?"] if y.ghost.get("dirty") else [])))
        return out
    pd = roots(r"defs::process_definition$")
    R.ob("anchor", "adding", len(pd) == 1, f"{[f.path for f in pd]} add definitions, one expected")
    for f in pd:
        n = 0
        for y, r, d in run(f):
            v = H.variant(y, r); n += 1
            if v != 0: R.ob("whole", f"{f.path}", not d, f"an error is returned although {', '.join(d)} may have changed", rel(f.where()))
        R.ob("anchor", "paths", n >= 4, f"{n} ways through {f.path}, at least 4 expected")
    H.nested = True
    for f in roots(r"Definitions::add_from_\w+$"):
        for y, r, d in run(f):
            if not y.ghost.get("nested"): R.ob("whole", f.path, not d, f"{', '.join(d)} may have changed although no definition was added", rel(f.where()))
    H.nested = None
    cl = roots(r"Definitions::clear$")
    R.ob("anchor", "clearing", len(cl) == 1, f"{[f.path for f in cl]} clear definitions, one expected")
    for f in cl:
        for only in (False, True):
            H.only = only
            for y, r, d in run(f, (only,)):
                R.ob("clear", f"all visited {'files only' if only else 'all'}", all(y.ghost.get(k) for k in ("all:keys", "all:types")), "not all commands and types are gone over", rel(f.where()))
            H.only = None
    closed(R, H, cr)
    R.floor("anchor", "places that store a command", 2); R.floor("anchor", "places that store a type", 1); R.floor("anchor", "operations", 4)
    finish(R, I)
    return H

MUT = re.compile(r"(^|::)(insert|entry|retain|clear|remove|remove_entry|values_mut|iter_mut|get_mut|drain|extend|into_iter|take|replace|swap|get_or_insert_with|insert_entry|try_insert|drain_filter|get_many_mut)$")
def closed(R, H, cr):
    """Whatever changes a map of definitions it does not own has been looked at."""
    seen = H.visited | set(H.I.fns_analysed)
    for f in cr.fns:
        if not f.local or "test" in f.path: continue
        for b in f.blocks:
            t = b["t"]
            if b.get("c"): continue
            if t["k"] == "call" and t.get("f") and t.get("atys") and H.kind(t["atys"][0]) and cr.ty(t["atys"][0])["k"] == "ref" and cr.ty(t["atys"][0])["mut"]:
                a = t["args"][0]
                if owned(f, a): continue
                R.saw("places that change definitions", rel(f.where(t.get("sp"))))
                R.ob("closed", f"{strip_closure(f.path)}", f.path in seen, f"{f.path} changes definitions, but not as part of adding or clearing them", rel(f.where(t.get("sp"))))

def owned(f, a):
    """The map is a local of this function."""
    if a["o"] == "const": return False
    l = a["p"][0]; n = 0
    while n < 20:
        n += 1
        src = [s["r"] for b in f.blocks for s in b["s"] if s["k"] == "=" and s["p"][0] == l and not s["p"][1]]
        if len(src) != 1: return False
        r = src[0]
        if r["r"] == "ref":
            if "*" in r["p"][1]: l = r["p"][0]; continue
            return r["p"][0] > f.nargs and cr_kind(f, r["p"][0])
        if r["r"] == "use" and r["a"]["o"] != "const": l = r["a"]["p"][0]; continue
        return False
    return False
def cr_kind(f, l): return f.crate.ty(f.locals[l]["ty"])["k"] != "ref"
