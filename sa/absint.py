"""Abstract interpreter over MIR facts.

Abstract state = memory shape (trees of symbolic values) x conjunction of linear constraints x
known facts about opaque symbols (enum variant, predicate, character class) x effect trace.
States are partitioned by shape; loops are solved by fixpoint iteration with join and widening.
Sequences (Vec, String, slices, str) are abstracted by segmentation: a list of runs of an input
sequence and single elements.  Every function with facts is analysed in its calling context
(inlined); std functions are given by the models in models.py; unknown functions havoc what they
can reach."""
import sys
from lin import Lin, feasible, project, relevant, subst_key, key_atoms, akey, common_eqs

sys.setrecursionlimit(20000)

class Imprecise(Exception): pass

# --------------------------------------------------------------------------- values
class V:
    __slots__ = ("_h",)
    def __eq__(self, o): return self is o or (type(self) is type(o) and self.k() == o.k())
    def __ne__(self, o): return not self == o
    def __hash__(self):
        try: return self._h
        except AttributeError:
            self._h = hash((type(self).__name__, self.k())); return self._h

class Sym(V):
    """Opaque value: identity given by its key."""
    __slots__ = ("key", "ty")
    def __init__(s, key, ty): s.key = key; s.ty = ty
    def k(s): return s.key
    def __repr__(s): return f"?{kstr(s.key)}"

class Agg(V):
    __slots__ = ("ty", "var", "f")
    def __init__(s, ty, var, f): s.ty = ty; s.var = var; s.f = tuple(f)
    def k(s): return (s.var, s.f)
    def __repr__(s): return f"#{'' if s.var is None else s.var}({', '.join(map(repr, s.f))})"

class Seq(V):
    """kind: 'vec' | 'str'; segs: tuple of ('run', base, lo, hi) | ('el', value)"""
    __slots__ = ("kind", "segs", "ety")
    def __init__(s, kind, segs, ety): s.kind = kind; s.segs = tuple(segs); s.ety = ety
    def k(s): return (s.kind, s.segs)
    def __repr__(s):
        return "[" + " ".join(f"{kstr(x[1])}[{x[2]}..{x[3]})" if x[0] == "run" else f"flat{kstr(x[1])}[{x[2]}..{x[3]})" if x[0] == "cat" else f"{x[1]!r}" for x in s.segs) + "]"

class VRef(V):
    __slots__ = ("v",)
    def __init__(s, v): s.v = v
    def k(s): return s.v
    def __repr__(s): return f"&{s.v!r}"

class MRef(V):
    __slots__ = ("loc", "path")
    def __init__(s, loc, path): s.loc = loc; s.path = tuple(path)
    def k(s): return (s.loc, s.path)
    def __repr__(s): return f"&mut {s.loc}{list(s.path)}"

class Obj(V):
    """Modelled library object."""
    __slots__ = ("tag", "f")
    def __init__(s, tag, *f): s.tag = tag; s.f = tuple(f)
    def k(s): return (s.tag, s.f)
    def __repr__(s): return f"{s.tag}<{', '.join(map(repr, s.f))}>"

class FnV(V):
    __slots__ = ("cal", "path")
    def __init__(s, cal): s.cal = cal; s.path = cal.get("rpath") or cal["path"]
    def k(s): return (s.path, s.cal.get("id"))
    def __repr__(s): return f"fn {s.path}"

class Pred(V):
    """Boolean: ('le', lin) lin<=0 | ('eq', lin) lin==0 | ('atom', key) | ('in', sym, frozenset); neg"""
    __slots__ = ("op", "a", "neg")
    def __init__(s, op, a, neg=False): s.op = op; s.a = a; s.neg = neg
    def k(s): return (s.op, s.a, s.neg)
    def inv(s): return Pred(s.op, s.a, not s.neg)
    def __repr__(s): return ("!" if s.neg else "") + f"{s.op}({s.a!r})"

UNIT = Agg(None, None, ())
UNINIT = Obj("uninit")

def kstr(k):
    if isinstance(k, tuple) and len(k) == 3 and k[0] in ("lp", "old"): return f"{k[0]}{hash_short(k[1]) % 997}_{k[2]}"
    if isinstance(k, tuple): return "(" + " ".join(kstr(x) for x in k) + ")"
    return str(k)

def vmap(v, f):
    """Rebuild a value with f applied to every Lin inside (including keys)."""
    if isinstance(v, Lin): return f(v)
    if isinstance(v, (bool, int, str)) or v is None: return v
    if isinstance(v, Agg): return Agg(v.ty, v.var, [vmap(x, f) for x in v.f])
    if isinstance(v, VRef): return VRef(vmap(v.v, f))
    if isinstance(v, Seq): return Seq(v.kind, [kmap(x, f) for x in v.segs], v.ety)
    if isinstance(v, Sym): return Sym(kmap(v.key, f), v.ty)
    if isinstance(v, MRef): return MRef(kmap(v.loc, f), kmap(v.path, f))
    if isinstance(v, Obj): return Obj(v.tag, *[kmap(x, f) for x in v.f])
    if isinstance(v, Pred): return Pred(v.op, kmap(v.a, f), v.neg)
    if isinstance(v, (FnV, frozenset)): return v
    if isinstance(v, tuple): return kmap(v, f)
    raise TypeError(type(v))

def kmap(k, f):
    if isinstance(k, tuple): return tuple(kmap(x, f) for x in k)
    if isinstance(k, (Lin, V)): return vmap(k, f)
    return k

def has_el(k):
    if isinstance(k, tuple): return (len(k) == 3 and k[0] == "el") or any(has_el(x) for x in k)
    return False

def el_keys(k, out):
    """All stream / list element keys mentioned in a value or key."""
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == "el": out.add(k)
        for x in k: el_keys(x, out)
    elif isinstance(k, Sym): el_keys(k.key, out)
    elif isinstance(k, VRef): el_keys(k.v, out)
    elif isinstance(k, (Agg, Obj)): el_keys(k.f, out)
    elif isinstance(k, Seq): el_keys(k.segs, out)
    elif isinstance(k, Lin):
        for a, _ in k.t: el_keys(a, out)
    return out

def find_pred(v):
    if isinstance(v, Pred): return v if v.op in ("in", "atom") or (isinstance(v.a, Lin) and any(has_el(a) for a, _ in v.a.t)) else None
    if isinstance(v, VRef): return find_pred(v.v)
    if isinstance(v, (Agg, Obj)):
        for x in v.f:
            r = find_pred(x)
            if r is not None: return r
    return None

def put_bool(v, p, val):
    if isinstance(v, Pred):
        if (v.op, v.a) == (p.op, p.a): return val if v.neg == p.neg else not val
        return v
    if isinstance(v, VRef): return VRef(put_bool(v.v, p, val))
    if isinstance(v, Agg): return Agg(v.ty, v.var, [put_bool(x, p, val) for x in v.f])
    if isinstance(v, Obj): return Obj(v.tag, *[put_bool(x, p, val) for x in v.f])
    return v

def vsubst(v, m):
    return vmap(v, lambda l: l.subst(m))

# shape: value tree with plain-linear parts replaced by holes
def shape(v, out):
    if isinstance(v, Lin):
        plain = {}; st = []
        for a, k in v.t:
            if a[0] == "U": st.append((k, a))
            else: plain[a] = k
        out.append(Lin.of(plain, v.c))
        if not st: return "#"
        return ("#",) + tuple((k, "U", shape(a[1], out), shape(a[2], out)) for k, a in st)
    if isinstance(v, tuple): return ("t",) + tuple(shape(x, out) for x in v)
    if isinstance(v, Agg): return ("A", v.var, len(v.f)) + tuple(shape(x, out) for x in v.f)
    if isinstance(v, VRef): return ("R", shape(v.v, out))
    if isinstance(v, Seq): return ("S", v.kind) + tuple(shape(x, out) for x in v.segs)
    if isinstance(v, Sym): return ("Y", shape(v.key, out))
    if isinstance(v, MRef): return ("M", shape(v.loc, out), shape(v.path, out))
    if isinstance(v, Obj): return ("O", v.tag) + tuple(shape(x, out) for x in v.f)
    if isinstance(v, Pred): return ("P", v.op, v.neg, shape(v.a, out))
    return v if not isinstance(v, FnV) else ("F", v.path)

def unshape(v, it):
    """Rebuild v, taking its plain-linear parts from the iterator (same order as shape)."""
    if isinstance(v, Lin):
        plain = next(it)
        acc = plain
        for a, k in v.t:
            if a[0] == "U":
                b = unshape(a[1], it); i = unshape(a[2], it)
                acc = acc + Lin.atom(("U", b, i)) * k
        return acc
    if isinstance(v, tuple): return tuple(unshape(x, it) for x in v)
    if isinstance(v, Agg): return Agg(v.ty, v.var, [unshape(x, it) for x in v.f])
    if isinstance(v, VRef): return VRef(unshape(v.v, it))
    if isinstance(v, Seq): return Seq(v.kind, [unshape(x, it) for x in v.segs], v.ety)
    if isinstance(v, Sym): return Sym(unshape(v.key, it), v.ty)
    if isinstance(v, MRef): return MRef(unshape(v.loc, it), unshape(v.path, it))
    if isinstance(v, Obj): return Obj(v.tag, *[unshape(x, it) for x in v.f])
    if isinstance(v, Pred): return Pred(v.op, unshape(v.a, it), v.neg)
    return v

MAXU = {8: 255, 16: 65535, 32: 2**32 - 1, 64: 2**64 - 1, 128: 2**128 - 1}
ISIZE_MAX = 2**63 - 1

# --------------------------------------------------------------------------- state
class State:
    __slots__ = ("mem", "cons", "facts", "trace", "ghost", "dead", "fz")
    def __init__(s):
        s.mem = {}; s.cons = (); s.facts = {}; s.trace = (); s.ghost = {}; s.dead = False; s.fz = None
    def copy(s):
        n = State()
        n.mem = dict(s.mem); n.cons = s.cons; n.facts = dict(s.facts); n.trace = s.trace; n.ghost = dict(s.ghost)
        n.fz = s.fz
        return n
    def event(s, *e):
        s.trace = s.trace + (e,)

    # ---- linear part
    def _axioms(s, atoms, cons):
        """Bounds of atoms and monotonicity of byte measures."""
        out = []
        us = {}
        for a in atoms:
            t = a[0]
            if t == "n":
                l = Lin.atom(a); out.append(-l); out.append(l - ISIZE_MAX)
            elif t == "s":
                l = Lin.atom(a); b = a[2]
                if b > 0: out.append(-l); out.append(l - MAXU[b])
                else: out.append(l - (MAXU[-b] // 2)); out.append(-l - (MAXU[-b] // 2 + 1))
            elif t == "W":
                l = Lin.atom(a); out.append(-l + 1); out.append(l - 4)
            elif t == "U":
                us.setdefault(a[1], []).append(a)
        for b, l in us.items():
            l.sort(key=akey)
            for a in l: out.append(Lin.atom(a) - ISIZE_MAX)
            pts = [(Lin.atom(a), a[2]) for a in l] + [(Lin.const(0), Lin.const(0))]
            kat = set()
            for _, k in pts: kat.update(k.atoms())
            kc = relevant(cons, kat) + s._basic(kat)
            for i in range(len(pts)):
                for j in range(len(pts)):
                    if i == j: continue
                    (ui, ki), (uj, kj) = pts[i], pts[j]
                    d = ki - kj                      # ki <= kj ?
                    le = d.c <= 0 if d.is_const() else not feasible(list(kc) + [-d + 1])
                    if le:
                        out.append(ui + (kj - ki) - uj)
                        out.append(uj - ui - (kj - ki) * 4)
        return out
    @staticmethod
    def _basic(atoms):
        out = []
        for a in atoms:
            if a[0] == "n": l = Lin.atom(a); out += [-l, l - ISIZE_MAX]
            elif a[0] == "s" and a[2] > 0: l = Lin.atom(a); out += [-l, l - MAXU[a[2]]]
        return out
    def _sys(s, extra):
        at = set()
        for e in extra: at.update(e.atoms())
        cons = relevant(s.cons, at)
        for e in cons: at.update(e.atoms())
        # U atoms: their index expressions matter
        ks = set()
        for a in at:
            if a[0] == "U": ks.update(a[2].atoms())
        if ks - at:
            at |= ks
            cons = relevant(s.cons, at)
            for e in cons: at.update(e.atoms())
        return list(cons) + s._axioms(at, s.cons)
    def infeasible(s, extra=()):
        return not feasible(s._sys(extra) + list(extra))
    def entails_le(s, e):
        """e <= 0 ?"""
        if e.is_const(): return e.c <= 0
        ck = ("le", e)
        c = s._cache()
        r = c.get(ck)
        if r is None:
            r = c[ck] = s.infeasible([-e + 1])
        return r
    def _cache(s):
        if s.fz is None or s.fz[0] is not s.cons: s.fz = (s.cons, {})
        return s.fz[1]
    def entails_eq(s, e):
        if e.is_const(): return e.c == 0
        return s.entails_le(e) and s.entails_le(-e)
    def add_le(s, e):
        """Assume e <= 0; returns False if the state becomes infeasible."""
        if e.is_const(): return e.c <= 0
        if s.entails_le(e): return True
        if s.infeasible([e]): return False
        s.cons = s.cons + (e,)
        s._umono(e)
        return True
    def _umono(s, e):
        # U(i) <= U(j) (+c<=0)  ->  i <= j ; strict -> i < j
        us = [(a, k) for a, k in e.t if a[0] == "U"]
        if len(us) == 2 and len(e.t) == 2 and us[0][0][1] == us[1][0][1] and {us[0][1], us[1][1]} == {1, -1}:
            (p, _), (q, _) = sorted(us, key=lambda x: -x[1])
            if e.c >= 1: s.cons = s.cons + (p[2] - q[2] + 1,)
            elif e.c >= 0: s.cons = s.cons + (p[2] - q[2],)
        elif len(us) == 1 and len(e.t) == 1 and us[0][1] == 1 and e.c >= 0:
            s.cons = s.cons + (us[0][0][2],)
        elif len(us) == 1 and len(e.t) == 1 and us[0][1] == -1 and e.c >= 1:
            s.cons = s.cons + (-us[0][0][2] + 1,)
    def add_eq(s, e):
        return s.add_le(e) and s.add_le(-e)

    # ---- boolean part
    def assume(s, p, val):
        """Assume boolean p has value val in this (fresh) state. Returns list of states."""
        if isinstance(p, bool): return [s] if p == val else []
        if isinstance(p, Sym): p = Pred("atom", p.key)
        if not isinstance(p, Pred): raise Imprecise(f"assume {p!r}")
        if p.neg: val = not val
        if p.op == "le":
            return [s] if s.add_le(p.a if val else -p.a + 1) else []
        if p.op == "eq":
            if val: return [s] if s.add_eq(p.a) else []
            if s.entails_eq(p.a): return []
            if s.entails_le(p.a): return [s] if s.add_le(p.a + 1) else []
            if s.entails_le(-p.a): return [s] if s.add_le(-p.a + 1) else []
            a = s.copy(); out = []
            if a.add_le(p.a + 1): out.append(a)
            if s.add_le(-p.a + 1): out.append(s)
            return out
        if p.op in ("in", "atom") and REGIONS:
            key = p.a[0] if p.op == "in" else p.a[1] if isinstance(p.a, tuple) and len(p.a) == 2 and p.a[0] in CHARPRED else None
            if isinstance(key, tuple) and len(key) == 3 and key[0] == "el" and key[1] in REGIONS and ("rg", key) not in s.facts:
                out = []
                for x in regions(s, key): out += x.assume(p, val)
                return out
        if p.op == "in":
            key, cs = p.a
            cur = s.facts.get(("cs", key))
            if val:
                if cur is None: ns = ("in", cs)
                elif cur[0] == "in": ns = ("in", cur[1] & cs)
                else: ns = ("in", cs - cur[1])
                if not ns[1]: return []
            else:
                if cur is None: ns = ("ni", cs)
                elif cur[0] == "in": ns = ("in", cur[1] - cs)
                else: ns = ("ni", cur[1] | cs)
                if ns[0] == "in" and not ns[1]: return []
            # opaque predicates already decided on this char must agree
            if ns[0] == "in":
                keep = set(ns[1])
                for (t, fk), fv in list(s.facts.items()):
                    if t == "p" and isinstance(fk, tuple) and len(fk) == 2 and fk[1] == key and fk[0] in CHARPRED:
                        keep = {c for c in keep if CHARPRED[fk[0]](chr(c)) == fv}
                if not keep: return []
                ns = ("in", frozenset(keep))
                if all(c < 128 for c in keep):
                    w = width_of(key)
                    if not s.add_eq(w - 1): return []
            s.facts[("cs", key)] = ns
            return [s]
        if p.op == "atom":
            key = p.a
            cur = s.facts.get(("p", key))
            if cur is not None: return [s] if cur == val else []
            if isinstance(key, tuple) and len(key) == 2 and key[0] in CHARPRED:
                cs = s.facts.get(("cs", key[1]))
                if cs and cs[0] == "in":
                    return s.assume(Pred("in", (key[1], frozenset(c for c in cs[1] if CHARPRED[key[0]](chr(c))))), val)
            s.facts[("p", key)] = val
            return [s]
        raise Imprecise(p.op)
    def split(s, p):
        """[(state, bool)]"""
        if isinstance(p, bool): return [(s, p)]
        out = []
        for val in (True, False):
            for n in s.copy().assume(p, val): out.append((n, val))
        return out
    def decide(s, p):
        if isinstance(p, bool): return p
        r = {v for _, v in s.split(p)}
        return r.pop() if len(r) == 1 else None

    def sub(s, m):
        """Substitute atoms everywhere."""
        s.mem = {kmap(l, lambda x: x.subst(m)): vsubst(v, m) for l, v in s.mem.items()}
        s.cons = tuple(e.subst(m) for e in s.cons)
        s.facts = {subst_key(k, m): v for k, v in s.facts.items()}
        s.ghost = {k: vsubst(v, m) for k, v in s.ghost.items()}
        s.trace = tuple(kmap(e, lambda x: x.subst(m)) for e in s.trace)

CHARPRED = {
    "is_alphanumeric": lambda c: c.isalnum(), "is_alphabetic": lambda c: c.isalpha(), "is_numeric": lambda c: c.isnumeric(),
    "is_whitespace": lambda c: c.isspace(), "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(),
    "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c", "is_control": lambda c: ord(c) < 32 or 127 <= ord(c) < 160,
    "is_ascii_punctuation": lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " ",
    "is_ascii": lambda c: c.isascii(), "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(), "is_ascii_digit": lambda c: c.isascii() and c.isdigit(),
    "is_uppercase": lambda c: c.isupper(), "is_lowercase": lambda c: c.islower(),
}

# base -> f(k) = [(tag, [constraints e <= 0], facts(key) -> [[(pred, value)]])]: what is known of element k, by region
REGIONS = {}

def regions(st, key):
    """Case split of a state by the region the element lies in, with the facts of that region."""
    out = []
    for tag, cons, facts in REGIONS[key[1]](key[2]):
        n = st.copy()
        if not all(n.add_le(e) for e in cons): continue
        n.facts[("rg", key)] = tag; n.ghost["rg"] = tag
        for alt in facts(key):
            ss = [n.copy()]
            for p, v in alt: ss = [y for x in ss for y in x.assume(p, v)]
            out += ss
    return out

def U(base, k):
    if k.is_const() and k.c == 0: return Lin.const(0)
    if base[0] == "rv": return U(base[1], base[2]) - U(base[1], base[2] - k)
    return Lin.atom(("U", base, k))

def width_of(key):
    if isinstance(key, tuple) and len(key) == 3 and key[0] == "el":
        return U(key[1], key[2] + 1) - U(key[1], key[2])
    return Lin.atom(("W", key))

# --------------------------------------------------------------------------- interpreter
WAITS = {"wait", "recv", "try_recv", "yield", "unknown"}
class Interp:
    def __init__(self, crate, **opt):
        from models import MODELS
        self.cr = crate
        self.models = dict(MODELS)
        self.types = crate.types
        self.obl = {}          # (fn path, kind, detail) -> {"ok":n,"fail":[...]}
        self.record = 0        # >0: quiet
        self.imprecise = set()
        self.hooks_yield = []
        self.iterlog = {}      # loop id -> list of (events, kind)
        self.loop_info = {}
        self.fc = 0
        self.chain = []
        self.cn = 0
        self.htypes = {}
        self.base_ety = {}
        self.max_states = 6000
        self.steps = 0
        self.fns_analysed = set()
        self.calls_modelled = set()
        self.on_event = None
        self.call_hook = None
        self.chan = None        # channel semantics of the property at hand
        self.cats = {}          # stream base -> (field path of the items, cond(st, k) -> bool | None)
        self.noinline = set()
        self.thr = []
        self.by_ty_s = {}
        for i, t in enumerate(self.types): self.by_ty_s.setdefault(t["s"], i)

    # ---- types
    def ty(self, i): return self.types[i] if i is not None else {"k": "other", "s": "?"}
    def ty_id(self, s): return self.by_ty_s.get(s)
    def int_bits(self, i):
        t = self.ty(i)
        if t["k"] == "uint": return t["bits"]
        if t["k"] == "int": return -t["bits"]
        return None
    def fresh(self, hint):
        """Key of a new symbol: named by the chain of call sites, so that fixpoint rounds agree."""
        self.fc += 1
        return ("fr", hint, tuple(self.chain), self.fc)

    def adt_path(self, i):
        t = self.ty(i)
        return t.get("path") if t["k"] == "adt" else None

    def mkval(self, key, i):
        """Symbolic value of type i identified by key."""
        t = self.ty(i); k = t["k"]
        if k in ("uint", "int"):
            return Lin.atom(("s", key, self.int_bits(i)))
        if k == "bool": return Pred("atom", key)
        if k == "str":
            return self.mkseq("str", key, self.ty_id("char"))
        if k == "slice": return self.mkseq("vec", key, t["elem"])
        if k == "ref":
            if t["mut"]:
                self.htypes[("H", key)] = t["to"]
                return MRef(("H", key), ())
            return VRef(self.mkval((key, "*"), t["to"]))
        if k == "tuple":
            if not t["elems"]: return UNIT
            return Agg(i, None, [self.mkval((key, "f", j), e) for j, e in enumerate(t["elems"])])
        if k == "array" and t.get("len") is not None and t["len"] <= 8:
            return Agg(i, None, [self.mkval((key, "i", j), t["elem"]) for j in range(t["len"])])
        if k == "adt":
            p = t["path"]
            if p in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
                return self.mkseq("vec", key, t["args"][0] if t["args"] else None)
            if p == "alloc::string::String":
                return self.mkseq("str", key, self.ty_id("char"))
            if p == "alloc::boxed::Box" and t["args"]:
                return Obj("box", self.mkval((key, "box"), t["args"][0]))
            if p in ("alloc::sync::Arc", "alloc::rc::Rc", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc") and t["args"]:
                return Obj("arc", self.mkval((key, "arc"), t["args"][0]))
        return Sym(key, i)

    def mkseq(self, kind, key, ety):
        base = ("c", key)
        self.base_ety[base] = ety
        return Seq(kind, [("run", base, Lin.const(0), Lin.atom(("n", base)))], ety)

    def elem(self, base, k, ety):
        if base[0] == "rv": return self.elem(base[1], base[2] - 1 - k, ety)      # ("rv", b, hi): b read downwards from hi - 1
        return self.mkval(("el", base, k), ety)

    def as_run(self, v):
        """Value that is an element of a base -> (base, k)"""
        key = None
        if isinstance(v, Obj) and v.tag in ("box", "arc") and isinstance(v.f[0], Sym) and isinstance(v.f[0].key, tuple) and len(v.f[0].key) == 2 and v.f[0].key[1] == v.tag: key = v.f[0].key[0]
        elif isinstance(v, Sym): key = v.key
        elif isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0][0] == "s": key = v.t[0][0][1]
        elif isinstance(v, Seq) and len(v.segs) == 1 and v.segs[0][0] == "run" and v.segs[0][2] == Lin.const(0) and v.segs[0][1][0] == "c" \
                and v.segs[0][3] == Lin.atom(("n", v.segs[0][1])): key = v.segs[0][1][1]
        if isinstance(key, tuple) and len(key) == 3 and key[0] == "el": return key[1], key[2]
        return None

    # ---- memory
    def rd(self, st, loc, path):
        v = st.mem.get(loc)
        if v is None:
            if loc in self.htypes:
                v = self.mkval(loc[1], self.htypes[loc]); st.mem[loc] = v
            else: raise Imprecise(f"read of unset {loc}")
        for p in path: v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if isinstance(p, int) or (isinstance(p, tuple) and p[0] == "vf"):
            variant, i = (None, p) if isinstance(p, int) else (p[1], p[2])
            if isinstance(v, Agg):
                if i >= len(v.f): raise Imprecise(f"field {i} of {v!r}")
                return v.f[i]
            if isinstance(v, Sym):
                t = self.ty(v.ty)
                if t["k"] == "adt" and t["variants"]:
                    fs = t["variants"][variant or 0]["fields"]
                    return self.mkval((v.key, "f", variant or 0, i), fs[i]["ty"])
                if t["k"] == "closure": return self.mkval((v.key, "f", 0, i), t["upvars"][i])
            if isinstance(v, Obj) and v.tag in ("box",): return v
            raise Imprecise(f"field {i} of {v!r}")
        if p == "*":
            if isinstance(v, VRef): return v.v
            if isinstance(v, MRef): return self.rd(st, v.loc, v.path)
            if isinstance(v, Obj) and v.tag == "box": return v.f[0]
            if isinstance(v, Obj) and v.tag == "boxptr": return v.f[0]
            if isinstance(v, Sym):
                t = self.ty(v.ty)
                if t["k"] in ("ref", "ptr"): return self.mkval((v.key, "*"), t["to"])
                if t["k"] == "adt" and t.get("args"): return self.mkval((v.key, "*"), t["args"][0])
            raise Imprecise(f"deref of {v!r}")
        if p == "box":
            if isinstance(v, Obj): return v.f[0]
            if isinstance(v, Sym): return self.mkval((v.key, "*"), self.ty(v.ty)["args"][0])
        if isinstance(p, tuple) and p[0] == "idx":
            if isinstance(v, Seq):
                r = self.seq_get(st, v, p[1])
                if len(r) == 1 and r[0][0] is st: return r[0][1]
                raise Imprecise("ambiguous index")
            if isinstance(v, Agg) and isinstance(p[1], Lin) and p[1].is_const(): return v.f[p[1].c]
        if isinstance(p, tuple) and p[0] == "sub":
            raise Imprecise("subslice")
        raise Imprecise(f"proj {p} of {v!r}")

    def wr(self, st, loc, path, val):
        if not path:
            st.mem[loc] = val; return
        cur = st.mem.get(loc)
        if cur is None and loc in self.htypes: cur = self.mkval(loc[1], self.htypes[loc])
        st.mem[loc] = self.upd(st, cur, path, val)

    def upd(self, st, cur, path, val):
        if not path: return val
        p = path[0]
        if isinstance(p, int) or (isinstance(p, tuple) and p[0] == "vf"):
            variant, i = (None, p) if isinstance(p, int) else (p[1], p[2])
            if isinstance(cur, Sym): cur = self.expand(cur, variant)
            if cur is None or cur is UNINIT: cur = Agg(None, variant, ())
            if not isinstance(cur, Agg): raise Imprecise(f"write field of {cur!r}")
            f = list(cur.f)
            while len(f) <= i: f.append(UNINIT)
            f[i] = self.upd(st, f[i], path[1:], val)
            return Agg(cur.ty, cur.var if variant is None else variant, f)
        if p == "box" and isinstance(cur, Obj):
            return Obj(cur.tag, self.upd(st, cur.f[0], path[1:], val), *cur.f[1:])
        if isinstance(p, tuple) and p[0] == "idx" and isinstance(cur, Seq):
            old = self.proj(st, cur, p) if path[1:] else None
            nv = self.upd(st, old, path[1:], val)
            return self.seq_set(st, cur, p[1], nv)
        if isinstance(p, tuple) and p[0] == "idx" and isinstance(cur, Agg) and p[1].is_const():
            f = list(cur.f); f[p[1].c] = self.upd(st, f[p[1].c], path[1:], val)
            return Agg(cur.ty, cur.var, f)
        raise Imprecise(f"write {p} of {cur!r}")

    def expand(self, v, variant=None):
        t = self.ty(v.ty)
        if t["k"] == "adt" and t["variants"]:
            fs = t["variants"][variant or 0]["fields"]
            return Agg(v.ty, variant if t["enum"] else None, [self.mkval((v.key, "f", variant or 0, i), f["ty"]) for i, f in enumerate(fs)])
        raise Imprecise(f"expand {v!r}")

    # ---- places
    def place(self, st, d, p, fn):
        """-> ('loc', loc, path) or ('val', value)"""
        loc = ("L", d, p[0]); path = []; variant = None
        val = None
        for e in p[1]:
            if e == "*":
                v = val if val is not None else self.rd(st, loc, path)
                if isinstance(v, MRef): loc, path, val = v.loc, list(v.path), None
                elif isinstance(v, Obj) and v.tag == "boxptr": loc, path, val = v.f[0], list(v.f[1]), None
                else: val = self.proj(st, v, "*")
                variant = None
                continue
            if e[0] == "d": variant = e[1]; continue
            if e[0] == "f": q = e[1] if variant is None else ("vf", variant, e[1]); variant = None
            elif e[0] == "i":
                q = ("idx", self.rd(st, ("L", d, e[1]), ()))
            elif e[0] == "c":
                v = val if val is not None else self.rd(st, loc, path)
                if e[3]:
                    n = self.seq_len(v) if isinstance(v, Seq) else Lin.const(len(v.f))
                    q = ("idx", n - e[1])
                else: q = ("idx", Lin.const(e[1]))
            elif e[0] == "s":
                v = val if val is not None else self.rd(st, loc, path)
                if not isinstance(v, Seq): raise Imprecise("subslice of array")
                n = self.seq_len(v)
                hi = n - e[2] if e[3] else Lin.const(e[2])
                val = self.slice_vals(st, v, Lin.const(e[1]), hi)
                continue
            else: raise Imprecise("place elem")
            if val is not None: val = self.proj(st, val, q)
            else: path.append(q)
        if val is not None: return ("val", val)
        return ("loc", loc, tuple(path))

    def slice_vals(self, st, v, a, b):
        r = self.seq_slice(st, v, a, b)
        if len(r) != 1: raise Imprecise("ambiguous subslice")
        st.cons = r[0][0].cons
        return r[0][1]

    def read(self, st, d, p, fn):
        r = self.place(st, d, p, fn)
        return r[1] if r[0] == "val" else self.rd(st, r[1], r[2])

    def write(self, st, d, p, val, fn):
        r = self.place(st, d, p, fn)
        if r[0] == "val": raise Imprecise(f"write through shared ref in {fn.path}")
        self.wr(st, r[1], r[2], val)

    def const(self, c):
        k = c["k"]
        if k == "int":
            t = self.ty(c["ty"])
            v = int(c["big"]) if "big" in c else c["v"]
            if t["k"] == "bool": return bool(v)
            if t["k"] == "float": return Sym(("float", v, t["s"]), c["ty"])
            return Lin.const(v)
        if k == "str":
            return VRef(self.const_str(c["v"]))
        if k == "bytes": return VRef(Sym(("bytes", c["v"]), self.ty(c["ty"]).get("to")))
        if k == "fn": return FnV(c["callee"])
        if k == "adt":
            t = self.ty(c["ty"])
            var = c.get("variant")
            if t["k"] == "adt" and not t["enum"]: var = None
            if t["k"] != "adt": var = None
            return Agg(c["ty"], var, [self.const(f) for f in c["fields"]])
        if k == "ref": return VRef(self.const(c["v"]))
        if k == "zst":
            t = self.ty(c["ty"])
            if t["k"] == "adt" and t["variants"] and not t["enum"]: return Agg(c["ty"], None, [self.const({"k": "zst", "ty": f["ty"]}) for f in t["variants"][0]["fields"]])
            if t["k"] == "tuple": return UNIT
            if t["k"] == "closure": return Agg(c["ty"], None, ())
            return Sym(("zst", t["s"]), c["ty"])
        return self.mkval(("const", c.get("name") or c.get("path") or c.get("s") or f"ty{c['ty']}"), c["ty"])

    def const_str(self, s):
        return Seq("str", [("el", Lin.const(ord(ch))) for ch in s], self.ty_id("char"))

    def operand(self, st, d, o, fn):
        if o["o"] == "const":
            if o["c"]["k"] == "promoted":
                return self.promoted(st, d, o["c"], fn)
            return self.const(o["c"])
        if o["o"] == "rtcheck": return False
        v = self.read(st, d, o["p"], fn)
        return v

    def promoted(self, st, d, c, fn):
        return self.mkval(("promoted", c["of"], c["n"]), c["ty"])

    # ---- sequences
    def seg_len(self, x):
        if x[0] == "cat": return Lin.atom(("n", x))
        return x[3] - x[2] if x[0] == "run" else Lin.const(1)
    def seq_len(self, s):
        n = Lin.const(0)
        for x in s.segs: n = n + self.seg_len(x)
        return n
    def char_width(self, v):
        if isinstance(v, Lin) and v.is_const(): return Lin.const(len(chr(v.c).encode("utf8")))
        if isinstance(v, Sym): return width_of(v.key)
        raise Imprecise(f"width of {v!r}")
    def seg_bytes(self, x):
        if x[0] == "run": return U(x[1], x[3]) - U(x[1], x[2])
        return self.char_width(x[1])
    def seq_bytes(self, s):
        n = Lin.const(0)
        for x in s.segs: n = n + self.seg_bytes(x)
        return n

    def norm_segs(self, st, segs, force=False):
        out = []; force = force or len(segs) > 1
        for x in segs:
            if x[0] == "el":
                r = self.as_run(x[1])
                if r: x = ("run", r[0], r[1], r[1] + 1)
            if x[0] == "run":
                if x[2] == x[3] or st.entails_eq(x[3] - x[2]): continue
                if self.cats and force:
                    k = self.cat_index(st, x)
                    if k is not None:
                        y = out[-1] if out and out[-1][0] == "cat" and out[-1][1] == x[1][1][0][1] else None
                        if y is not None and (y[3] == k or st.entails_eq(y[3] - k)): out[-1] = ("cat", y[1], y[2], k + 1)
                        else: out.append(("cat", x[1][1][0][1], k, k + 1))
                        continue
                if out and out[-1][0] == "run" and out[-1][1] == x[1] and (out[-1][3] == x[2] or st.entails_eq(out[-1][3] - x[2])):
                    out[-1] = ("run", x[1], out[-1][2], x[3]); continue
            if x[0] == "cat":
                if x[2] == x[3] or st.entails_eq(x[3] - x[2]): continue
                if out and out[-1][0] == "cat" and out[-1][1] == x[1] and (out[-1][3] == x[2] or st.entails_eq(out[-1][3] - x[2])):
                    out[-1] = ("cat", x[1], out[-1][2], x[3]); continue
            out.append(x)
        return tuple(out)

    def cat_index(self, st, x):
        """x is the complete item list of a selected stream element -> its index.
        ("cat", stream, lo, hi): the items of the selected elements lo <= k < hi, in order."""
        b = x[1]
        if not (isinstance(b, tuple) and b[0] == "c" and isinstance(b[1], tuple) and len(b[1]) == 4 and b[1][1] == "f"): return None
        el = b[1][0]
        if not (isinstance(el, tuple) and len(el) == 3 and el[0] == "el" and el[1] in self.cats): return None
        fld, cond = self.cats[el[1]]
        if b[1][2:] != fld or not st.entails_eq(x[2]) or not st.entails_eq(x[3] - Lin.atom(("n", b))): return None
        if cond is not None and cond(st, el[2]) is not True: return None
        return el[2]
    def cat_advance(self, st):
        """End of a loop iteration: a list of selected items also covers a following element that is not selected."""
        def fix(v):
            if isinstance(v, Seq):
                segs = list(self.norm_segs(st, v.segs, True)); ch = tuple(segs) != v.segs
                for i, x in enumerate(segs):
                    if x[0] != "cat": continue
                    cond = self.cats[x[1]][1]
                    for b, cur in self.cursors(st):
                        if b == x[1] and st.entails_eq(cur - 1 - x[3]) and (cond is None or cond(st, x[3]) is False): segs[i] = (x[0], x[1], x[2], cur); ch = True
                return Seq(v.kind, segs, v.ety) if ch else v
            if isinstance(v, VRef): return VRef(fix(v.v))
            if isinstance(v, Agg): return Agg(v.ty, v.var, [fix(x) for x in v.f])
            if isinstance(v, Obj) and v.tag in ("arc", "box"): return Obj(v.tag, *[fix(x) for x in v.f])
            return v
        st.mem = {l: fix(v) for l, v in st.mem.items()}
    def cursors(self, st):
        return [(b, st.ghost["cur:" + kstr(b)]) for b in self.cats if "cur:" + kstr(b) in st.ghost]

    def seq_split(self, st, s, i):
        """Split at element position i (0 <= i <= len assumed). -> [(st, left segs, right segs)]"""
        cum = Lin.const(0); bounds = [cum]
        for x in s.segs:
            cum = cum + self.seg_len(x); bounds.append(cum)
        for k, b in enumerate(bounds):
            if b == i or st.entails_eq(b - i):
                return [(st, s.segs[:k], s.segs[k:])]
        out = []
        for k, x in enumerate(s.segs):
            lo, hi = bounds[k], bounds[k + 1]
            if x[0] == "run":
                if st.entails_le(lo - i) and st.entails_le(i - hi):
                    m = x[2] + (i - lo)
                    return [(st, s.segs[:k] + (("run", x[1], x[2], m),), (("run", x[1], m, x[3]),) + s.segs[k + 1:])]
        for k, b in enumerate(bounds):
            n = st.copy()
            if n.add_eq(b - i): out.append((n, s.segs[:k], s.segs[k:]))
        for k, x in enumerate(s.segs):
            if x[0] != "run": continue
            lo, hi = bounds[k], bounds[k + 1]
            n = st.copy()
            if n.add_le(lo - i + 1) and n.add_le(i - hi + 1):
                m = x[2] + (i - lo)
                out.append((n, s.segs[:k] + (("run", x[1], x[2], m),), (("run", x[1], m, x[3]),) + s.segs[k + 1:]))
        return out

    def seq_get(self, st, s, i):
        """Element at i (0 <= i < len assumed). -> [(st, value)]"""
        cum = Lin.const(0); cand = []
        for x in s.segs:
            hi = cum + self.seg_len(x)
            if x[0] == "el":
                if cum == i or st.entails_eq(cum - i): return [(st, x[1])]
            elif st.entails_le(cum - i) and st.entails_le(i - hi + 1):
                return [(st, self.elem(x[1], x[2] + (i - cum), s.ety))]
            cand.append((x, cum, hi)); cum = hi
        out = []
        for x, lo, hi in cand:
            n = st.copy()
            if n.add_le(lo - i) and n.add_le(i - hi + 1):
                if x[0] == "cat": raise Imprecise("element of a selected list")
                out.append((n, x[1] if x[0] == "el" else self.elem(x[1], x[2] + (i - lo), s.ety)))
        return out

    def seq_set(self, st, s, i, v):
        r = self.seq_split(st, s, i)
        if len(r) != 1: raise Imprecise("ambiguous element write")
        st0, l, rgt = r[0]; st.cons = st0.cons
        r = self.seq_split(st, Seq(s.kind, rgt, s.ety), Lin.const(1))
        if len(r) != 1: raise Imprecise("ambiguous element write")
        st0, _, rest = r[0]; st.cons = st0.cons
        return Seq(s.kind, self.norm_segs(st, l + (("el", v),) + rest), s.ety)

    def seq_slice(self, st, s, a, b):
        out = []
        for s1, l, r in self.seq_split(st, s, b):
            for s2, _, m in self.seq_split(s1, Seq(s.kind, l, s.ety), a):
                out.append((s2, Seq(s.kind, self.norm_segs(s2, m), s.ety)))
        return out

    def byte_to_char(self, st, s, b):
        """Char position whose byte offset in s is b: [(st, Lin)] ; None when not provably a boundary."""
        cumc = Lin.const(0); cumb = Lin.const(0)
        if b == cumb or st.entails_eq(b): return cumc
        tot = self.seq_bytes(s)
        if tot == b or st.entails_eq(tot - b): return self.seq_len(s)
        for x in s.segs:
            if b == cumb or st.entails_eq(b - cumb): return cumc
            if x[0] == "run":
                # absolute position in the base
                absb = b - cumb + U(x[1], x[2])
                cands = [a for a, k in absb.t if a[0] == "U" and a[1] == x[1]]
                for e in st.cons:
                    for a, k in e.t:
                        if a[0] == "U" and a[1] == x[1] and a not in cands: cands.append(a)
                for a in cands:
                    if absb == Lin.atom(a) or st.entails_eq(absb - Lin.atom(a)):
                        return cumc + (a[2] - x[2])
                for dk in (1, -1):
                    for a in list(cands):
                        cand = U(x[1], a[2] + dk)
                        if absb == cand or st.entails_eq(absb - cand): return cumc + (a[2] + dk - x[2])
            cumc = cumc + self.seg_len(x); cumb = cumb + self.seg_bytes(x)
        return None

    # ---- obligations
    def oblige(self, fn, sp, kind, ok, st=None, detail=""):
        if self.record: return
        key = (fn.path, kind, f"{sp[0]}:{sp[1]}" if sp else "")
        o = self.obl.setdefault(key, {"ok": 0, "fail": []})
        if ok: o["ok"] += 1
        elif len(o["fail"]) < 5: o["fail"].append(detail or (repr(st.cons) if st else ""))

    # ---- rvalues: -> [(st, value)]
    def rvalue(self, st, d, r, fn, sp):
        k = r["r"]
        if k == "use": return [(st, self.operand(st, d, r["a"], fn))]
        if k == "ref":
            pr = self.place(st, d, r["p"], fn)
            if r["mut"]:
                if pr[0] == "loc":
                    return [(st, MRef(pr[1], pr[2]))]
                v = pr[1]
                return [(st, VRef(v))]
            return [(st, VRef(self.read(st, d, r["p"], fn)))]
        if k == "discr":
            v = self.read(st, d, r["p"], fn)
            return self.discr(st, v, r["ty"])
        if k == "agg":
            ops = [self.operand(st, d, o, fn) for o in r["ops"]]
            t = self.ty(r["ty"])
            var = r.get("variant") if r["kind"] == "adt" and t.get("enum") else None
            if r["kind"] == "rawptr": return [(st, ops[0])]
            return [(st, Agg(r["ty"], var, ops))]
        if k == "cast":
            v = self.operand(st, d, r["a"], fn)
            kind = r["kind"]
            if kind == "BoxDerefTransmute":
                p = r["a"]["p"]
                base = [p[0], [e for e in p[1]]]
                while base[1] and isinstance(base[1][-1], list) and base[1][-1][0] == "f" and base[1][-1][1] == 0 : base = [base[0], base[1][:-1]]
                # find the Box itself
                pr = self.place(st, d, base, fn)
                if pr[0] == "loc":
                    bv = self.rd(st, pr[1], pr[2])
                    if isinstance(bv, (MRef, VRef)): pass
                    elif isinstance(bv, Obj) and bv.tag == "box": return [(st, MRef(pr[1], tuple(pr[2]) + ("box",)))]
                    else: return [(st, VRef(self.proj(st, bv, "*")))]
                    return [(st, bv)]
                return [(st, VRef(self.proj(st, pr[1], "*")))]
            if kind.startswith("IntToInt"):
                return self.cast_int(st, v, r["from"], r["ty"])
            if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Subtype", "Transmute"):
                if kind == "Transmute" and isinstance(v, Lin): return self.cast_int(st, v, r["from"], r["ty"])
                if "Unsize" in kind:
                    # &[T;N] -> &[T]
                    iv = v.v if isinstance(v, VRef) else None
                    if isinstance(iv, Agg) and self.ty(iv.ty)["k"] == "array":
                        return [(st, VRef(Seq("vec", [("el", x) for x in iv.f], self.ty(iv.ty)["elem"])))]
                if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind: return [(st, v)]
                return [(st, v)]
            if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
                return [(st, self.mkval(self.fresh("cast"), r["ty"]))]
            return [(st, v)]
        if k == "bin":
            a = self.operand(st, d, r["a"], fn); b = self.operand(st, d, r["b"], fn)
            return self.binop(st, r["op"], a, b, r["ty"])
        if k == "un":
            a = self.operand(st, d, r["a"], fn)
            op = r["op"]
            if op == "Not":
                if isinstance(a, bool): return [(st, not a)]
                if isinstance(a, Pred): return [(st, a.inv())]
                if isinstance(a, Lin) and a.is_const():
                    b = self.int_bits(r["ty"]); return [(st, Lin.const(MAXU[b] - a.c if b > 0 else -a.c - 1))]
                return [(st, self.mkval(self.fresh("not"), r["ty"]))]
            if op == "Neg" and isinstance(a, Lin): return [(st, -a)]
            if op == "PtrMetadata":
                v = a.v if isinstance(a, VRef) else (self.rd(st, a.loc, a.path) if isinstance(a, MRef) else None)
                if isinstance(v, Seq): return [(st, self.seq_len(v) if v.kind == "vec" else self.seq_bytes(v))]
                if isinstance(v, Agg): return [(st, Lin.const(len(v.f)))]
            return [(st, self.mkval(self.fresh("un"), r["ty"]))]
        if k == "repeat":
            v = self.operand(st, d, r["a"], fn)
            n = r.get("n")
            if n is not None and n <= 64: return [(st, Agg(None, None, [v] * n))]
            raise Imprecise("repeat")
        if k == "tls": return [(st, Sym(("tls", r["path"]), None))]
        raise Imprecise(f"rvalue {k}")

    def cast_int(self, st, v, fr, to):
        b = self.int_bits(to); ft = self.ty(fr)
        if isinstance(v, Pred):
            return [(s, Lin.const(1 if x else 0)) for s, x in st.split(v)]
        if isinstance(v, bool): return [(st, Lin.const(int(v)))]
        if isinstance(v, Sym) and ft["k"] == "char": v = Lin.atom(("s", v.key, 32))
        if isinstance(v, Agg): 
            r = self.discr(st, v, fr); out = []
            for s, x in r: out += self.cast_int(s, x, None, to)
            return out
        if self.ty(to)["k"] == "char": return [(st, v)]
        if not isinstance(v, Lin) or b is None: return [(st, self.mkval(self.fresh("cast"), to))]
        lo, hi = (0, MAXU[b]) if b > 0 else (-(MAXU[-b] // 2) - 1, MAXU[-b] // 2)
        if st.entails_le(v - hi) and st.entails_le(-v + lo): return [(st, v)]
        if v.is_const():
            m = MAXU[abs(b)] + 1; c = v.c % m
            if c > hi: c -= m
            return [(st, Lin.const(c))]
        out = []
        n = st.copy()
        if n.add_le(v - hi) and n.add_le(-v + lo): out.append((n, v))
        f = self.mkval(self.fresh("trunc"), to)
        n = st.copy()
        if n.add_le(-v + hi + 1): out.append((n, f))
        n = st.copy()
        if n.add_le(v - lo + 1): out.append((n, f))
        return out

    def discr(self, st, v, ty):
        if isinstance(v, Agg) and v.var is not None:
            t = self.ty(ty)
            return [(st, Lin.const(self.discr_of(ty if t["k"] == "adt" else v.ty, v.var)))]
        if isinstance(v, Sym):
            key = ("var", v.key)
            if key in st.facts: return [(st, Lin.const(self.discr_of(ty, st.facts[key])))]
            t = self.ty(ty)
            if t["k"] != "adt": raise Imprecise("discr of non adt")
            vs = t["variants"]
            # niche: never expand huge enums eagerly; return a symbolic discriminant
            if len(vs) > 12:
                return [(st, Lin.atom(("d", v.key)))]
            out = []
            for i in range(len(vs)):
                n = st.copy(); n.facts[key] = i
                out.append((n, Lin.const(self.discr_of(ty, i))))
            return out
        if isinstance(v, Agg): return [(st, Lin.const(0))]
        if isinstance(v, Obj) and v.tag in OBJ_DISCR: return [(st, OBJ_DISCR[v.tag])]
        raise Imprecise(f"discr of {v!r}")

    def discr_of(self, ty, var):
        t = self.ty(ty)
        if t["k"] == "adt" and t["variants"]:
            dv = t["variants"][var].get("discr")
            return dv if dv is not None else var
        return var

    def as_lin(self, v):
        if isinstance(v, Lin): return v
        if isinstance(v, Sym) and self.ty(v.ty)["k"] == "char": return Lin.atom(("s", v.key, 32))
        return None

    def binop(self, st, op, a, b, ty):
        if op in ("Eq", "Ne"):
            r = self.eq(st, a, b)
            if r is not None:
                if op == "Ne": r = [(s, (not x) if isinstance(x, bool) else x.inv()) for s, x in r]
                return r
        if op in ("BitAnd", "BitOr", "BitXor") and self.is_bool(a) and self.is_bool(b):
            if op == "BitAnd":
                if a is False or b is False: return [(st, False)]
                if a is True: return [(st, b)]
                if b is True: return [(st, a)]
            if op == "BitOr":
                if a is True or b is True: return [(st, True)]
                if a is False: return [(st, b)]
                if b is False: return [(st, a)]
            out = []
            for s1, x in st.split(a):
                for s2, y in s1.split(b):
                    out.append((s2, (x and y) if op == "BitAnd" else (x or y) if op == "BitOr" else (x != y)))
            return out
        la, lb = self.as_lin(a), self.as_lin(b)
        if la is None or lb is None:
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return [(st, Pred("atom", ("cmp", op, a, b)))]
            return [(st, self.mkval(self.fresh("bin" + op), ty) if not op.endswith("WithOverflow") else Agg(None, None, [self.mkval(self.fresh("bin"), ty), Pred("atom", self.fresh("ov"))]))]
        if op == "Lt": return [(st, Pred("le", la - lb + 1))]
        if op == "Le": return [(st, Pred("le", la - lb))]
        if op == "Gt": return [(st, Pred("le", lb - la + 1))]
        if op == "Ge": return [(st, Pred("le", lb - la))]
        if op == "Eq": return [(st, Pred("eq", la - lb))]
        if op == "Ne": return [(st, Pred("eq", la - lb, True))]
        if op == "Cmp":
            oty = self.ordering_ty()
            out = []
            for i, cs in ((0, [la - lb + 1]), (1, [la - lb, lb - la]), (2, [lb - la + 1])):
                n = st.copy()
                if all(n.add_le(c) for c in cs): out.append((n, Agg(oty, i, ())))
            return out
        bits = self.int_bits(ty) or 64
        lo, hi = (0, MAXU[bits]) if bits > 0 else (-(MAXU[-bits] // 2) - 1, MAXU[-bits] // 2)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            if base == "Add": e = la + lb
            elif base == "Sub": e = la - lb
            elif la.is_const(): e = lb * la.c
            elif lb.is_const(): e = la * lb.c
            else: e = self.mkval(self.fresh("mul"), ty)
            if op.endswith("WithOverflow"):
                if e.is_const(): ov = not (lo <= e.c <= hi)
                elif base == "Mul" and not (la.is_const() or lb.is_const()): ov = Pred("atom", self.fresh("ov"))
                elif st.entails_le(e - hi) and st.entails_le(-e + lo): ov = False
                elif base == "Add" and bits > 0: ov = Pred("le", -e + hi + 1)
                elif base == "Sub" and bits > 0: ov = Pred("le", e - lo + 1)
                else: ov = Pred("le", -e + hi + 1) if st.entails_le(-e + lo) else Pred("atom", self.fresh("ov"))
                return [(st, Agg(None, None, [e, ov]))]
            if op.endswith("Unchecked"): return [(st, e)]
            return self.wrap(st, e, bits)
        if base == "Div" and lb.is_const() and lb.c > 0 and bits > 0:
            if la.is_const(): return [(st, Lin.const(la.c // lb.c))]
            q = Lin.atom(("v", self.fresh("q")))
            st = st.copy()
            st.add_le(q * lb.c - la); st.add_le(la - q * lb.c - (lb.c - 1)); st.add_le(-q)
            return [(st, q)]
        if base == "Rem" and lb.is_const() and lb.c > 0 and bits > 0:
            if la.is_const(): return [(st, Lin.const(la.c % lb.c))]
            if la.c >= 0 and all(k % lb.c == 0 for _, k in la.t): return [(st, Lin.const(la.c % lb.c))]
            q = Lin.atom(("v", self.fresh("q"))); r = la - q * lb.c
            st = st.copy()
            rr = Lin.atom(("v", self.fresh("r")))
            st.cons = st.cons + (rr - r, r - rr, -rr, rr - (lb.c - 1), -q)
            if lb.c <= 4:
                out = []
                for i in range(lb.c):
                    n = st.copy()
                    if n.add_eq(rr - i): out.append((n, Lin.const(i)))
                return out
            return [(st, rr)]
        if la.is_const() and lb.is_const():
            x, y = la.c, lb.c
            f = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Shl": (x << y) if y < 200 else 0, "Shr": (x >> y) if y < 200 else 0}.get(base)
            if f is not None:
                m = MAXU[abs(bits)] + 1; f %= m
                if f > hi: f -= m
                return [(st, Lin.const(f))]
            if base == "Div" and y: return [(st, Lin.const(int(x / y) if bits < 0 else x // y))]
            if base == "Rem" and y: return [(st, Lin.const(x - y * int(x / y)))]
        if base == "Rem" and bits > 0:
            out = []
            n = st.copy()
            if n.add_le(la - lb + 1): out.append((n, la))
            n = st.copy()
            if n.add_le(lb - la) and n.add_le(la - lb * 2 + 1): out.append((n, la - lb))
            st = st.copy()
            if not st.add_le(lb * 2 - la): return out
            r = Lin.atom(("v", self.fresh("r"))); st = st.copy()
            st.cons = st.cons + (-r, r - lb + 1, r - la)
            return out + [(st, r)]
        if base == "Div" and bits > 0:
            r = Lin.atom(("v", self.fresh("q"))); st = st.copy()
            st.cons = st.cons + (-r, r - la)
            return [(st, r)]
        if base == "BitAnd" and bits > 0 and (la.is_const() or lb.is_const()):
            c = la.c if la.is_const() else lb.c; x = lb if la.is_const() else la
            if c == 1:
                return self.binop(st, "Rem", x, Lin.const(2), ty)
            key = ("bitand", x, c)
            r = Lin.atom(("s", key, bits)); st = st.copy()
            st.add_le(r - c); st.add_le(r - x)
            return [(st, r)]
        return [(st, Lin.atom(("s", (base, la, lb), bits)))]

    def wrap(self, st, e, bits):
        lo, hi = (0, MAXU[bits]) if bits > 0 else (-(MAXU[-bits] // 2) - 1, MAXU[-bits] // 2)
        if st.entails_le(e - hi) and st.entails_le(-e + lo): return [(st, e)]
        out = []
        n = st.copy()
        if n.add_le(e - hi) and n.add_le(-e + lo): out.append((n, e))
        m = MAXU[abs(bits)] + 1
        n = st.copy()
        if n.add_le(-e + hi + 1): out.append((n, e - m))
        n = st.copy()
        if n.add_le(e - lo + 1): out.append((n, e + m))
        return out

    def is_bool(self, v): return isinstance(v, (bool, Pred))

    def ordering_ty(self):
        for i, t in enumerate(self.types):
            if t["k"] == "adt" and t["path"] == "core::cmp::Ordering": return i
        return None

    def eq(self, st, a, b):
        """Structural equality -> [(st, bool|Pred)] or None"""
        if self.is_bool(a) and self.is_bool(b):
            if isinstance(a, bool) and isinstance(b, bool): return [(st, a == b)]
            if isinstance(b, bool): a, b = b, a
            if isinstance(a, bool): return [(st, b if a else b.inv() if isinstance(b, Pred) else not b)]
            out = []
            for s1, x in st.split(a):
                for s2, y in s1.split(b): out.append((s2, x == y))
            return out
        if isinstance(a, VRef) and isinstance(b, VRef): return self.eq(st, a.v, b.v)
        if isinstance(a, MRef): return self.eq(st, self.rd(st, a.loc, a.path), b)
        if isinstance(b, MRef): return self.eq(st, a, self.rd(st, b.loc, b.path))
        ca = isinstance(a, Sym) and self.ty(a.ty)["k"] == "char"
        cb = isinstance(b, Sym) and self.ty(b.ty)["k"] == "char"
        if ca and isinstance(b, Lin) and b.is_const(): return [(st, Pred("in", (a.key, frozenset([b.c]))))]
        if cb and isinstance(a, Lin) and a.is_const(): return [(st, Pred("in", (b.key, frozenset([a.c]))))]
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            if d.is_const(): return [(st, d.c == 0)]
            return [(st, Pred("eq", d))]
        if a == b: return [(st, True)]
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.var != b.var: return [(st, False)]
            states = [(st, True)]
            for x, y in zip(a.f, b.f):
                nxt = []
                for s, r in states:
                    if r is False: nxt.append((s, False)); continue
                    for s2, e in self.eq(s, x, y) or [(s, Pred("atom", ("eq", x, y)))]:
                        nxt += s2.split(e)
                states = nxt
            return states
        if isinstance(a, Agg) and isinstance(b, Sym): a, b = b, a
        if isinstance(a, Sym) and isinstance(b, Agg) and b.var is not None:
            out = []
            for s, dv in self.discr(st, a, a.ty):
                if not dv.is_const(): return None
                if dv.c != self.discr_of(a.ty, b.var): out.append((s, False))
                else:
                    ea = self.expand(a, b.var)
                    out += self.eq(s, ea, b) or [(s, Pred("atom", ("eq", ea, b)))]
            return out
        if isinstance(a, Seq) and isinstance(b, Seq):
            la, lb = self.seq_len(a), self.seq_len(b)
            n1 = st.copy(); n2 = st.copy(); out = []
            if not st.entails_eq(la - lb):
                for s in st.copy().assume(Pred("eq", la - lb), False): out.append((s, False))
                if not n1.add_eq(la - lb): return out
            if n1.entails_eq(la): out.append((n1, True))
            elif len(a.segs) == len(b.segs) and all(x == y for x, y in zip(a.segs, b.segs)): out.append((n1, True))
            elif all(x[0] == "el" for x in a.segs + b.segs) and len(a.segs) == len(b.segs):
                states = [(n1, True)]
                for x, y in zip(a.segs, b.segs):
                    nxt = []
                    for s, r in states:
                        if r is False: nxt.append((s, False)); continue
                        for s2, e in self.eq(s, x[1], y[1]) or [(s, Pred("atom", ("eq", x[1], y[1])))]: nxt += s2.split(e)
                    states = nxt
                out += states
            else: out.append((n1, Pred("atom", ("seqeq", a, b))))
            return out
        return None

    # ---- function execution
    def cfg(self, fn):
        c = fn._cache.get("cfg")
        if c is None:
            from cfg import Cfg
            c = fn._cache["cfg"] = Cfg(fn)
        return c

    def call_fn(self, st, fn, args, d):
        """Inline call: -> [(st, ret)]"""
        if d > 40: raise Imprecise("call depth")
        self.fns_analysed.add(fn.path)
        s = st.copy()
        fc0, self.fc = self.fc, 0
        for l in [l for l in s.mem if l[0] == "L" and l[1] >= d]: del s.mem[l]
        for i, a in enumerate(args): s.mem[("L", d, i + 1)] = a
        out = []
        for s2, kind, x in self.explore(fn, s, 0, d, None, None):
            assert kind == "ret"
            ret = s2.mem.get(("L", d, 0), UNIT)
            s2 = s2.copy()
            for l in [l for l in s2.mem if l[0] == "L" and l[1] >= d]: del s2.mem[l]
            self.gc_facts(s2, ret)
            out.append((s2, ret))
        self.fc = fc0
        return self.prune(out)

    def gc_facts(self, s, ret):
        if not s.facts: return
        keys = set(); val_keys(ret, keys); val_keys(s.trace, keys)
        for v in s.mem.values(): val_keys(v, keys)
        for v in s.ghost.values(): val_keys(v, keys)
        def ok(k):
            if not has_fresh(k): return True
            x = k[1]
            while True:
                if x in keys: return True
                if isinstance(x, tuple) and x and x[0] not in ("fr", "hd", "el") and isinstance(x[0], tuple): x = x[0]
                elif isinstance(x, tuple) and x and x[0] in CHARPRED: x = x[1]
                else: return any(has_sub(y, x) for y in keys)
        s.facts = {k: v for k, v in s.facts.items() if ok(k)}

    def prune(self, outs):
        if len(outs) < 2: return outs
        seen = {}; res = []
        for s, v in outs:
            k = (tuple(sorted(((akey(l), x) for l, x in s.mem.items()), key=lambda y: y[0])), frozenset(s.cons), frozenset(s.facts.items()), s.trace, v, tuple(sorted(s.ghost.items(), key=lambda y: y[0])))
            if k in seen: continue
            seen[k] = 1; res.append((s, v))
        return res

    def explore(self, fn, st, bb, d, body, head):
        """-> list of (state, kind, x): kind 'ret' | 'back' | 'exit' (x = target block)"""
        cfg = self.cfg(fn)
        out = []
        work = [(st, bb, True)]
        while work:
            s, b, first = work.pop()
            while True:
                if not first:
                    if b == head: out.append((s, "back", None)); break
                if body is not None and b not in body: out.append((s, "exit", b)); break
                if b in cfg.loops and not (first and b == head):
                    for s2, kind, x in self.mir_loop(fn, s, b, d):
                        if kind == "ret": out.append((s2, "ret", None))
                        else: work.append((s2, x, False))
                    break
                first = False
                self.steps += 1
                if self.steps > 400000: raise Imprecise("step budget")
                nxt = self.block(fn, s, b, d)
                if len(nxt) == 1 and nxt[0][1] is not None:
                    s, b = nxt[0]; continue
                for s2, t in nxt:
                    if t is None: out.append((s2, "ret", None))
                    else: work.append((s2, t, False))
                break
            if len(out) + len(work) > self.max_states: raise Imprecise("state explosion in " + fn.path)
        return out

    def mir_loop(self, fn, st, h, d):
        cfg = self.cfg(fn)
        body = cfg.loops[h]
        live = cfg.live_in(h)
        def step(s):
            return [(s2, kind, x) for s2, kind, x in self.explore(fn, s, h, d, body, h)]
        def trim(s):
            # drop dead locals of this frame
            keep = set(("L", d, l) for l in live)
            self.close_refs(s, keep, d)
            for l in [l for l in s.mem if l[0] == "L" and l[1] >= d and l not in keep]: del s.mem[l]
        sp = fn.blocks[h]["t"].get("sp") or fn.span
        return self.fixloop(st, step, (fn.path, h, d), trim, sp=sp, ends=lambda ok: self.oblige(fn, sp, "endless loop", ok, None, "no quantity was found that every round brings closer to an end"))

    def close_refs(self, s, keep, d):
        work = list(keep)
        while work:
            l = work.pop()
            v = s.mem.get(l)
            if v is None: continue
            for r in mrefs(v):
                if r.loc not in keep:
                    keep.add(r.loc); work.append(r.loc)

    def fixloop(self, s0, step, name, trim, sp=None, ends=None):
        """Solve a loop. step(s) -> [(s, 'back'|'exit'|'ret', x)]. Returns the exits."""
        lid = name
        s0 = s0.copy(); trim(s0)
        n = max((finite_iter(self, v) for v in s0.mem.values()), default=0)
        if n:
            self.record += 1
            try: r = self.unroll(s0, step, name, trim, n + 1)
            finally: self.record -= 1
            if r is not None: return r if self.record else self.unroll(s0, step, name, trim, n + 1)
        outer = s0.trace
        s0.trace = ()
        exits = []
        heads = {}      # shape -> [state, njoins]
        rounds_of = []  # (head, its state, next head, its state) of the last pass
        def run(s, log, own=None):
            r = step(s.copy())
            backs = []; ex = []
            for s2, kind, x in r:
                if log and not self.record:
                    self.iterlog.setdefault(lid, []).append((s, s2.trace, kind, s2, x))
                if kind == "back":
                    s2 = s2.copy(); trim(s2); free = any(e[0] in WAITS for e in s2.trace); s2.trace = ()
                    if own is not None and ends and not self.record and not free:
                        for z in self.definite(s2.copy()):
                            y = z.copy(); self.age(s, y, lid); rounds_of.append((own, s, self.state_shape(y)[0], z))
                    if self.cats: self.cat_advance(s2)
                    for s3 in self.definite(s2): self.age(s, s3, lid); backs.append(s3)
                else: ex.append((s2, kind, x))
            return backs, ex
        # first iteration peeled
        self.record += 1
        try: backs, _ = run(s0, False)
        finally: self.record -= 1
        pending = list(backs); rounds = 0
        while pending:
            rounds += 1
            if rounds > 60: raise Imprecise(f"loop does not converge {name}")
            dirty = set()
            for s in pending:
                key, lins = self.state_shape(s)
                h = heads.get(key)
                if h is None:
                    if any(many_segs(v) for v in s.mem.values()): raise Imprecise(f"a list grows in too many pieces in loop {name}")
                    if len(heads) > 40: raise Imprecise(f"too many loop partitions {name}")
                    self.gc(s)
                    heads[key] = [s, 0, set(), 0]; dirty.add(key)
                else:
                    n = self.join_into(h, s, (lid, hash_short(key)))
                    if n is not None:
                        heads[key] = n; dirty.add(key)
            pending = []
            self.record += 1
            try:
                for key in sorted(dirty, key=repr):
                    b, _ = run(heads[key][0], False)
                    pending += b
            finally: self.record -= 1
        # final pass, recording
        res = []
        b, e = run(s0, True); res += e
        for key in sorted(heads, key=repr):
            b, e = run(heads[key][0], True, key); res += e
        if ends and not self.record: ends(self.terminates(rounds_of))
        out = []
        for s, kind, x in res:
            s = s.copy()
            s.trace = outer + ((("loop", lid),) if True else ()) + s.trace
            x = self.solve_slots(s, lid, x)
            out.append((s, kind, x))
        self.loop_info[lid] = {"partitions": len(heads) + 1, "rounds": rounds, "sp": sp}
        return out

    def measures(self, a, b, path, out):
        if isinstance(a, bool): a = Lin.const(int(a))
        if isinstance(b, bool): b = Lin.const(int(b))
        if isinstance(a, Lin) and isinstance(b, Lin): out[path] = (a, b)
        elif isinstance(a, Seq) and isinstance(b, Seq): out[path] = (self.seq_len(a), self.seq_len(b))
        elif isinstance(a, VRef) and isinstance(b, VRef): self.measures(a.v, b.v, path + ("*",), out)
        elif isinstance(a, (Agg, Obj)) and type(a) is type(b):
            if (a.var if isinstance(a, Agg) else a.tag) == (b.var if isinstance(b, Agg) else b.tag):
                for i, (x, y) in enumerate(zip(a.f, b.f)): self.measures(x, y, path + (i,), out)
    def terminates(self, rounds):
        """Every cycle of rounds has a measure that never grows and, bounded below, shrinks (or never shrinks and grows within its type)."""
        edges = []
        for p, h, q, s in rounds:
            ms = {}
            for l, v in h.mem.items():
                if l in s.mem: self.measures(v, s.mem[l], (l,), ms)
            m = dict(ms); ks = sorted(ms, key=repr)
            ch = [k for k in ks if ms[k][0] != ms[k][1]]
            for x in ch[:8]:
                for y in ks[:24]:
                    if x != y:
                        for sg in (1, -1):
                            m[("pair", x, y, sg)] = ((ms[x][0] - ms[y][0]) * sg, (ms[x][1] - ms[y][1]) * sg)
            edges.append((p, q, s, m))
        def ok(es):
            # keep the edges that lie on a cycle
            adj = {}
            for e in es: adj.setdefault(e[0], set()).add(e[1])
            def reach(a):
                seen = set(); w = [a]
                while w:
                    for n in adj.get(w.pop(), ()):
                        if n not in seen: seen.add(n); w.append(n)
                return seen
            rs = {n: reach(n) for n in adj}
            es = [e for e in es if e[0] in rs.get(e[1], ()) or e[0] == e[1]]
            if not es: return True
            comps = {}
            for e in es: comps.setdefault(frozenset(n for n in rs[e[0]] if e[0] in rs.get(n, ())), []).append(e)
            for c in comps.values():
                common = set.intersection(*(set(e[3]) for e in c))
                for k in sorted(common, key=lambda k: (k[0] == "pair", repr(k))):
                    for up in ((False,) if k[0] == "pair" else (False, True)):
                        sg = -1 if up else 1
                        if not all(e[2].entails_le((e[3][k][1] - e[3][k][0]) * sg) for e in c): continue
                        strict = [e for e in c if e[2].entails_le((e[3][k][1] - e[3][k][0]) * sg + 1) and (up or e[2].entails_le(-e[3][k][0]))]
                        if strict and ok([e for e in c if e not in strict]): break
                    else: continue
                    break
                else: return False
            return True
        return ok(edges)

    def unroll(self, s0, step, name, trim, n):
        """Follow a loop over a list of known length exactly; None when it does not end in time."""
        cur = [s0]; out = []
        try:
            for k in range(n):
                nxt = []; self.chain.append(("unroll", hash_short(name), k))
                try:
                    for s in cur:
                        for s2, kind, x in step(s.copy()):
                            if kind == "back":
                                s2 = s2.copy(); trim(s2); nxt += self.definite(s2)
                            else: out.append((s2, kind, x))
                finally: self.chain.pop()
                cur = nxt
                if not cur: return out
                if len(cur) + len(out) > 64: return None
        except Imprecise:
            if not self.record: raise
        return None

    def solve_slots(self, s, lid, x):
        """Leaving a loop: replace its symbols where an equality determines them."""
        while True:
            cs = set(s.cons); hit = None
            for e in s.cons:
                if len(e.t) > 3: continue
                own = [(a, k) for a, k in e.t if abs(k) == 1 and a[0] == "v" and isinstance(a[1], tuple) and a[1][0] == "lp" and a[1][1][0] == lid]
                if not own: continue
                if -e not in cs and not s.entails_le(-e): continue
                a, k = max(own, key=lambda y: y[0][1][2])
                hit = (a, -(e - Lin.atom(a) * k) * k); break
            if hit is None: return x
            m = {hit[0]: hit[1]}
            s.sub(m); s.cons = tuple(dict.fromkeys(e for e in s.cons if not e.is_const()))
            if isinstance(x, (Lin, V, tuple)): x = kmap(x, lambda l: l.subst(m))

    def definite(self, s):
        """Split a loop-head state until no stored boolean is an undecided predicate over an element."""
        p = None
        for v in s.mem.values():
            p = find_pred(v)
            if p is not None: break
        if p is None: return [s]
        out = []
        for n, val in s.split(p):
            n.mem = {l: put_bool(v, p, val) for l, v in n.mem.items()}
            out += self.definite(n)
        return out

    def age(self, head, s, lid):
        """Rename the symbols created during an iteration that survive it."""
        h = set(); b = set()
        for l, v in head.mem.items(): fresh_in(l, h); fresh_in(v, h)
        fresh_in(tuple(head.ghost.values()), h)
        for l, v in s.mem.items(): fresh_in(l, b); fresh_in(v, b)
        fresh_in(tuple(s.ghost.values()), b)
        new = b - h
        if not new: return
        m = {}
        tag = hash_short(lid)
        for k in new:
            n = ("hd", tag, k)
            if n in b: raise Imprecise("two generations of one symbol are live")
            m[k] = n
        s.mem = {rekey(l, m): rekey(v, m) for l, v in s.mem.items()}
        s.ghost = {k: rekey(v, m) for k, v in s.ghost.items()}
        s.cons = tuple(rekey(e, m) for e in s.cons)
        s.facts = {rekey(k, m): v for k, v in s.facts.items()}
        for k, n in m.items():
            for d in (self.base_ety, self.htypes):
                for kk in list(d):
                    if has_sub(kk, k): d[rekey(kk, m)] = d[kk]

    def state_shape(self, s):
        lins = []
        items = []
        for l in sorted(s.mem, key=akey):
            items.append((shape(l, lins), shape(s.mem[l], lins)))
        g = []
        for k in sorted(s.ghost): g.append((k, shape(s.ghost[k], lins)))
        return (tuple(items), tuple(g)), lins

    def set_lins(self, s, lins):
        it = iter(lins)
        mem = {}
        for l in sorted(s.mem, key=akey):
            l2 = unshape(l, it); mem[l2] = unshape(s.mem[l], it)
        gh = {}
        for k in sorted(s.ghost): gh[k] = unshape(s.ghost[k], it)
        s.mem = mem; s.ghost = gh

    def live_atoms(self, s):
        out = set()
        for l, v in s.mem.items():
            key_atoms(l, out); val_atoms(v, out)
        for v in s.ghost.values(): val_atoms(v, out)
        return out

    def gc(self, s):
        """Forget constraints and facts about symbols no longer reachable."""
        live = self.live_atoms(s)
        keys = set()
        for v in s.mem.values(): val_keys(v, keys)
        for v in s.ghost.values(): val_keys(v, keys)
        els = set()
        for v in s.mem.values(): el_keys(v, els)
        # an input symbol stays meaningful (properties refer to it); loop temporaries do not
        def keep_atom(a):
            return a in live or (a[0] in ("n", "s") and not has_fresh(a) and (not has_slot(a) or any(e in els for e in el_keys(a, set())))) or (a[0] == "v" and isinstance(a[1], tuple) and a[1][0] == "inp")
        ats = set()
        for e in s.cons: ats.update(e.atoms())
        for a in list(ats):
            if a[0] == "U": pass
        drop = {a for a in ats if not keep_atom(a) and not (a[0] == "U" and all(keep_atom(x) for x in a[2].atoms()))}
        if drop:
            p = project(tuple(s.cons) + tuple(s._basic(drop)), ats - drop)
            s.cons = tuple(p) if p is not None else s.cons
        def fact_ok(k):
            at = set(); key_atoms(k, at)
            return all(keep_atom(a) or a[0] in ("U",) for a in at) and not has_fresh(k) and (k[0] == "in" or k in keys or not has_slot(k))
        s.facts = {k: v for k, v in s.facts.items() if fact_ok(k) or (k[0] in ("var", "cs", "p") and k[1] in keys)}

    def join_into(self, h, s, name):
        """h=[state,njoins,slots]. None if s is included in h, else the new head record."""
        H, nj, slots = h[:3]
        _, hl = self.state_shape(H)
        s = s.copy()
        # rename old slot atoms in s
        def A(i): return ("v", ("lp", name, i))
        def O(i): return ("v", ("old", name, i))
        m = {A(i): Lin.atom(O(i)) for i in slots}
        if m: s.sub(m)
        _, sl = self.state_shape(s)
        # find new slots: positions where values differ once old slots are renamed
        newslots = set(slots)
        changed = True
        solved = {}
        # natural solution: slot i's own old atom
        def solve():
            nonlocal s, sl
            todo = []
            for i in sorted(newslots):
                e = sl[i]
                own = [(a, k) for a, k in e.t if a[0] == "v" and isinstance(a[1], tuple) and a[1][0] == "old" and a[1][1] == name]
                if len(own) == 1 and len(e.t) == 1 and abs(own[0][1]) == 1 and own[0][0] not in solved:
                    pref = own[0][0] == O(i)
                    todo.append((0 if pref else 1, i, own[0][0], own[0][1], e.c))
            for _, i, a, k, c in sorted(todo, key=lambda x: (x[0], x[1])):
                if a in solved: continue
                # k*a + c = A(i) -> a = (A(i)-c)*k
                solved[a] = (Lin.atom(A(i)) - c) * k
            if solved:
                s.sub(solved); _, sl = self.state_shape(s)
        solve()
        for _ in range(10):
            diff = {i for i in range(len(hl)) if i not in newslots and hl[i] != sl[i]}
            if not diff: break
            newslots |= diff
            solve()
        else: raise Imprecise("join slots")
        # constraints for slots
        H2 = H.copy()
        if newslots - set(slots):
            nl = list(hl)
            add = []
            for i in newslots - set(slots):
                add += [Lin.atom(A(i)) - hl[i], hl[i] - Lin.atom(A(i))]; nl[i] = Lin.atom(A(i))
            H2.cons = H2.cons + tuple(add)
            self.set_lins(H2, nl)
        addS = []; nl = list(sl); sl0 = list(sl)
        for i in newslots:
            if sl[i] != Lin.atom(A(i)):
                addS += [Lin.atom(A(i)) - sl[i], sl[i] - Lin.atom(A(i))]; nl[i] = Lin.atom(A(i))
        s.cons = s.cons + tuple(addS)
        self.set_lins(s, nl)
        # project away leftovers
        for X in (H2, s):
            ats = set()
            for e in X.cons: ats.update(e.atoms())
            live = self.live_atoms(X)
            drop = {a for a in ats if a[0] == "v" and isinstance(a[1], tuple) and a[1][0] == "old" and a[1][1] == name and a not in live}
            if drop:
                p = project(X.cons, ats - drop)
                X.cons = tuple(p) if p is not None else ()
            X.facts = {k: v for k, v in X.facts.items() if not has_old(k, name)}
        self.gc(s); self.gc(H2)
        # inclusion test
        if newslots == set(slots):
            if all(s.entails_le(e) for e in H2.cons) and all(s.facts.get(k) == v for k, v in H2.facts.items()):
                return None
        cand = []
        for e in H2.cons:
            if s.entails_le(e): cand.append(e)
        # affine relations between the slots introduced by this join: equal increments
        new = sorted(newslots - set(slots))
        if new:
            dif = {i: sl0[i] - hl[i] for i in new}
            for x in range(len(new)):
                for y in range(x + 1, len(new)):
                    i, j = new[x], new[y]
                    r = ratio(dif[i], dif[j])
                    if r is None: continue
                    p, q = r          # p*dif[i] == q*dif[j]
                    e = Lin.atom(A(i)) * p - Lin.atom(A(j)) * q - (hl[i] * p - hl[j] * q)
                    if s.entails_eq(e):
                        for z in (e, -e):
                            if z not in cand: cand.append(z)
        for e in common_eqs(H2.cons, s.cons):
            for z in (e, -e):
                if z not in cand: cand.append(z)
        dims = set(Lin.atom(A(i)) for i in newslots)
        others = {Lin.const(0)}
        for X in (H2, s):
            for e in X.cons: others.update(Lin.atom(a) for a in e.atoms() if a[0] != "U")
        if nj < 4:
            for e in s.cons:
                if e not in cand and H2.entails_le(e): cand.append(e)
        for x in sorted(dims, key=repr):
            for y in sorted(dims | others, key=repr):
                if x == y: continue
                for e in (x - y, y - x):
                    b1 = self.sup(H2, e)
                    if b1 is None: continue
                    if nj < 4:
                        b2 = self.sup(s, e)
                        if b2 is None: continue
                        c = e - max(b1, b2)
                    else:
                        c = e - b1          # widening: the old bound, if it is stable
                        if not s.entails_le(c): continue
                    if c not in cand: cand.append(c)
        if nj >= 4:
            for i in newslots:
                x = Lin.atom(A(i))
                for e0 in (x, -x):
                    for t in self.thr:
                        e = e0 - t if e0 is x else e0 + t
                        if H2.entails_le(e) and s.entails_le(e):
                            cand.append(e); break
        J = H2.copy()
        J.cons = self.reduce(cand)
        J.facts = {k: v for k, v in H2.facts.items() if s.facts.get(k) == v}
        # a slot that always equals another expression (same offset) is not a symbol of its own
        slotset = set(newslots)
        while True:
            hit = None; cs = set(J.cons)
            for e in J.cons:
                if len(e.t) > 2: continue
                mine = [(a, k) for a, k in e.t if a[0] == "v" and isinstance(a[1], tuple) and a[1][0] == "lp" and a[1][1] == name and a[1][2] in slotset and abs(k) == 1]
                if not mine or any(a[0] == "U" for a, _ in e.t) or (-e not in cs and not J.entails_le(-e)): continue
                a, k = max(mine, key=lambda x: x[0][1][2])
                hit = (a, -(e - Lin.atom(a) * k) * k); break
            if hit is None: break
            a, val = hit
            slotset.discard(a[1][2]); J.sub({a: val})
            J.cons = tuple(dict.fromkeys(e for e in J.cons if not e.is_const()))
        if slotset == set(slots):
            # nothing new after all?
            _, jl = self.state_shape(J); _, h0 = self.state_shape(H)
            if jl == h0 and J.facts == H.facts and all(J.entails_le(e) for e in H.cons): return None
        return [J, 0 if newslots - set(slots) and h[3] < 12 else nj + 1, slotset, h[3] + 1]

    def reduce(self, cons):
        cons = list(dict.fromkeys(cons))
        cons.sort(key=lambda e: (len(e.t), repr(e)))
        # equalities stay explicit, whatever bounds happen to imply half of one for now: later joins are built from them
        cs = set(cons); eqs = [e for e in cons if -e in cs]
        t = State()
        i = len(eqs) - 1
        while i >= 0:
            e = eqs[i]; rest = [x for x in eqs if x != e and x != -e]
            t.cons = tuple(rest); t.fz = None
            if rest and t.entails_eq(e): eqs = rest; i = min(i, len(eqs))
            i -= 1
        keep = set(eqs)
        cons = [e for e in cons if e in keep or -e not in cs]
        cons.sort(key=lambda e: (e not in keep, len(e.t), repr(e)))
        i = len(cons) - 1
        while i >= len(keep):
            rest = cons[:i] + cons[i + 1:]
            t.cons = tuple(rest); t.fz = None
            if t.entails_le(cons[i]): cons = rest
            i -= 1
        return tuple(cons)

    def sup(self, st, e):
        """Least upper bound of e in st, or None."""
        T = ("v", "T!")
        sys_ = st._sys([e]) + [Lin.atom(T) - e, e - Lin.atom(T)]
        p = project(sys_, {T})
        if p is None: return -10**30
        best = None
        for c in p:
            if len(c.t) == 1 and c.t[0][1] > 0:
                b = (-c.c) // c.t[0][1]
                if best is None or b < best: best = b
        if best is not None and abs(best) > 10**9: return None
        return best

    # ---- one basic block
    def block(self, fn, st, b, d):
        """Execute a block: -> [(state, next block | None)]"""
        blk = fn.blocks[b]
        self.fc = 0
        self.chain.append((fn.path, b))
        try: return self._block(fn, st, blk, d)
        finally: self.chain.pop()

    def _block(self, fn, st, blk, d):
        states = [st.copy()]
        for s in blk["s"]:
            k = s["k"]
            if k == "=":
                nxt = []
                for x in states:
                    for s2, v in self.rvalue(x, d, s["r"], fn, s.get("sp")):
                        self.write(s2, d, s["p"], v, fn)
                        nxt.append(s2)
                states = nxt
            elif k == "dead":
                for x in states: x.mem.pop(("L", d, s["l"]), None)
            elif k == "setdiscr":
                for x in states:
                    v = self.read(x, d, s["p"], fn)
                    self.write(x, d, s["p"], Agg(v.ty, s["v"], v.f), fn)
            elif k == "assume":
                nxt = []
                for x in states: nxt += x.assume(self.operand(x, d, s["c"], fn), True)
                states = nxt
        out = []
        for x in states: out += self.term(fn, x, blk["t"], d)
        return out

    def term(self, fn, st, t, d):
        k = t["k"]
        if k == "goto": return [(st, t["to"])]
        if k == "return": return [(st, None)]
        if k in ("unreachable", "resume", "abort"):
            if k == "unreachable": self.oblige(fn, None, "unreachable-reached", True)
            return []
        if k == "drop":
            p = t["p"]
            try:
                v = self.read(st, d, p, fn)
                if t["needs"]: self.on_drop(st, fn, t, v)
            except Imprecise: pass
            if not p[1]: st.mem.pop(("L", d, p[0]), None)
            return [(st, t["to"])]
        if k == "switch":
            v = self.operand(st, d, t["d"], fn)
            return self.switch(fn, st, t, v)
        if k == "assert":
            c = self.operand(st, d, t["c"], fn)
            out = []
            for s, val in st.split(c):
                if val == t["exp"]: out.append((s, t["to"]))
            bad = [s for s, val in st.split(c) if val != t["exp"]]
            self.oblige(fn, t["sp"], "assert " + t["m"], not bad, bad[0] if bad else None)
            return out
        if k == "call":
            return self.call_term(fn, st, t, d)
        raise Imprecise(f"terminator {k} {t.get('s')}")

    def on_drop(self, st, fn, t, v): pass

    def switch(self, fn, st, t, v):
        out = []
        if self.is_bool(v) or (isinstance(v, Sym) and self.ty(v.ty)["k"] == "bool"):
            tg = {val: b for val, b in t["v"]}
            for s, x in st.split(v):
                out.append((s, tg.get(int(x), t["else"])))
            return out
        if isinstance(v, Lin) and v.is_const():
            for val, b in t["v"]:
                if val == v.c or (v.c < 0 and val == v.c % 2**64): return [(st, b)]
                if v.c < 0 and val in (v.c % 2**8, v.c % 2**16, v.c % 2**32, v.c % 2**128): return [(st, b)]
            return [(st, t["else"])]
        if isinstance(v, Sym) and self.ty(v.ty)["k"] == "char":
            by = {}
            for val, b in t["v"]: by.setdefault(b, set()).add(val)
            rl = [st.copy()]
            for b, vals in by.items():
                p = Pred("in", (v.key, frozenset(vals)))
                for s in st.copy().assume(p, True): out.append((s, b))
                rl = [y for x in rl for y in x.copy().assume(p, False)]
            for x in rl: out.append((x, t["else"]))
            return out
        if isinstance(v, Lin):
            rl = [st.copy()]
            dsym = v.t[0][0] if len(v.t) == 1 and v.t[0][0][0] == "d" else None
            for val, b in t["v"]:
                for s in st.copy().assume(Pred("eq", v - val), True):
                    if dsym is not None: s.facts[("var", dsym[1])] = self.var_of_discr(dsym[1], val)
                    out.append((s, b))
                rl = [y for x in rl for y in x.copy().assume(Pred("eq", v - val), False)]
            for x in rl: out.append((x, t["else"]))
            return out
        raise Imprecise(f"switch on {v!r}")

    def var_of_discr(self, key, val): return val

    # ---- calls
    def call_term(self, fn, st, t, d):
        f = t.get("f")
        args = [self.operand(st, d, a, fn) for a in t["args"]]
        if f is None:
            fv = self.operand(st, d, t["ind"], fn)
            res = self.call_value(st, fv, args, d, t, fn)
        else:
            res = self.call_named(st, f, args, d, t, fn)
        out = []
        if t.get("to") is None: return []
        for s, v in res:
            self.write(s, d, t["dest"], v, fn)
            out.append((s, t["to"]))
        return out

    def call_named(self, st, f, args, d, t, fn):
        from facts import strip_generics
        from models import dispatch
        st = st.copy()
        r = dispatch(self, st, f, args, d, t, fn)
        if r is not None: return r
        if f.get("id") is not None:
            callee = self.cr.fns[f["id"]]
            if callee.path not in self.noinline and strip_generics(callee.path) not in self.noinline:
                if callee.raw.get("closure_of") and f.get("trait", "") and "function::Fn" in f["trait"]:
                    return self.call_value(st, args[0], self.untuple(args[1]), d, t, fn)
                return self.call_fn(st, callee, args, d + 1)
        return self.unknown(st, f, args, d, t, fn)

    def untuple(self, v):
        if isinstance(v, Agg): return list(v.f)
        raise Imprecise(f"untuple {v!r}")

    def call_value(self, st, fv, args, d, t=None, fn=None):
        """Call a function value: -> [(st, ret)]; closures by ref keep their state in place."""
        v = fv
        if isinstance(v, MRef):
            inner = self.rd(st, v.loc, v.path)
            if isinstance(inner, (MRef, VRef)): return self.call_value(st, inner, args, d, t, fn)
            if isinstance(inner, Agg) and self.ty(inner.ty)["k"] == "closure":
                return self.call_closure(st, inner, v, args, d)
            return self.call_value(st, inner, args, d, t, fn)
        if isinstance(v, VRef): 
            inner = v.v
            if isinstance(inner, Agg) and self.ty(inner.ty)["k"] == "closure": return self.call_closure(st, inner, v, args, d)
            return self.call_value(st, inner, args, d, t, fn)
        if isinstance(v, Agg) and self.ty(v.ty)["k"] == "closure":
            return [(s, r) for s, _, r in self.call_closure_val(st, v, args, d)]
        if isinstance(v, FnV):
            return self.call_named(st, v.cal, args, d, t or {"dty": None, "sp": None}, fn)
        return self.unknown(st, {"path": f"<indirect {v!r}>", "args": []}, args, d, t or {"dty": None}, fn)

    def closure_fn(self, clo):
        i = self.ty(clo.ty).get("inst")
        if i is None: raise Imprecise("closure without body")
        return self.cr.fns[i]

    def call_closure(self, st, clo, ref, args, d):
        f = self.closure_fn(clo)
        k = self.ty(f.locals[1]["ty"])["k"]
        a0 = ref if k == "ref" else clo
        if k == "ref" and isinstance(ref, MRef) and not self.ty(f.locals[1]["ty"])["mut"]: a0 = VRef(clo)
        return self.call_fn(st, f, [a0] + list(args), d + 1)

    def call_closure_val(self, st, clo, args, d):
        """-> [(st, new closure value, ret)]"""
        f = self.closure_fn(clo)
        t1 = self.ty(f.locals[1]["ty"])
        if t1["k"] == "ref":
            if not t1["mut"]:
                return [(s, clo, r) for s, r in self.call_fn(st, f, [VRef(clo)] + list(args), d + 1)]
            loc = ("H", ("clo", d))
            st = st.copy(); old = st.mem.get(loc); st.mem[loc] = clo
            out = []
            for s, r in self.call_fn(st, f, [MRef(loc, ())] + list(args), d + 1):
                nc = s.mem.pop(loc)
                if old is not None: s.mem[loc] = old
                out.append((s, nc, r))
            return out
        return [(s, clo, r) for s, r in self.call_fn(st, f, [clo] + list(args), d + 1)]

    def call_any_val(self, st, f, args, d, t=None, fn=None):
        """Call closure/function value held by value: -> [(st, newf, ret)]"""
        if isinstance(f, Agg) and f.ty is not None and self.ty(f.ty)["k"] == "closure": return self.call_closure_val(st, f, args, d)
        return [(s, f, r) for s, r in self.call_value(st, f, args, d, t, fn)]

    def unknown(self, st, f, args, d, t, fn):
        path = f.get("rpath") or f["path"]
        if not self.record: self.imprecise.add(path)
        st = st.copy()
        for a in args:
            for r in mrefs(a): self.havoc(st, r)
        st.event("unknown", path, tuple(args))
        key = self.fresh("ret:" + path)
        return [(st, self.mkval(key, t.get("dty")))]

    def havoc(self, st, r):
        try: v = self.rd(st, r.loc, r.path)
        except Imprecise: return
        self.wr(st, r.loc, r.path, self.havoc_val(v))

    def havoc_val(self, v):
        if isinstance(v, Lin): return Lin.atom(("s", self.fresh("hv"), 64))
        if self.is_bool(v): return Pred("atom", self.fresh("hv"))
        if isinstance(v, Seq):
            key = self.fresh("hv"); base = ("c", key); self.base_ety[base] = v.ety
            return Seq(v.kind, [("run", base, Lin.const(0), Lin.atom(("n", base)))], v.ety)
        if isinstance(v, Sym): return Sym(self.fresh("hv"), v.ty)
        if isinstance(v, Agg):
            if v.ty is not None: return Sym(self.fresh("hv"), v.ty) if self.ty(v.ty)["k"] == "adt" else Agg(v.ty, v.var, [self.havoc_val(x) for x in v.f])
            return Agg(v.ty, v.var, [self.havoc_val(x) for x in v.f])
        raise Imprecise(f"havoc {v!r}")

OBJ_DISCR = {}

def thresholds(cr, file):
    """Integer constants of the local code of one source file (and neighbours): widening thresholds."""
    acc = set()
    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "int" and isinstance(x.get("v"), int) and 1 < x["v"] < 10**6: acc.add(x["v"])
            for y in x.values(): walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    for f in cr.fns:
        if f.local and f.file == file: walk(f.blocks)
    return sorted({y for x in sorted(acc)[:8] for y in (x - 1, x, x + 1)})

def ratio(a, b):
    """(p, q) small integers with p*a == q*b, or None."""
    if a.is_const() and a.c == 0 or b.is_const() and b.c == 0: return None
    ka = a.t[0][1] if a.t else a.c
    at = a.t[0][0] if a.t else None
    kb = dict(b.t).get(at) if at is not None else b.c
    if not kb: return None
    from math import gcd
    g = gcd(ka, kb); p, q = kb // g, ka // g
    if abs(p) > 8 or abs(q) > 8: return None
    return (p, q) if a * p == b * q else None

def mrefs(v, out=None):
    if out is None: out = []
    if isinstance(v, MRef): out.append(v)
    elif isinstance(v, VRef): mrefs(v.v, out)
    elif isinstance(v, (Agg, Obj)):
        for x in v.f: mrefs(x, out)
    elif isinstance(v, Seq):
        for x in v.segs:
            if x[0] == "el": mrefs(x[1], out)
    elif isinstance(v, tuple):
        for x in v: mrefs(x, out)
    return out

def val_atoms(v, out):
    if isinstance(v, Lin): key_atoms(v, out)
    elif isinstance(v, tuple):
        for x in v: val_atoms(x, out)
    elif isinstance(v, (Agg, Obj)):
        for x in v.f: val_atoms(x, out)
    elif isinstance(v, VRef): val_atoms(v.v, out)
    elif isinstance(v, Seq): val_atoms(v.segs, out)
    elif isinstance(v, Sym): key_atoms(v.key, out)
    elif isinstance(v, MRef): key_atoms(v.loc, out); val_atoms(v.path, out)
    elif isinstance(v, Pred): val_atoms(v.a, out)

def val_keys(v, out):
    if isinstance(v, Sym): out.add(v.key)
    elif isinstance(v, tuple):
        for x in v: val_keys(x, out)
    elif isinstance(v, (Agg, Obj)):
        for x in v.f: val_keys(x, out)
    elif isinstance(v, VRef): val_keys(v.v, out)
    elif isinstance(v, Seq): val_keys(v.segs, out)
    elif isinstance(v, Pred):
        out.add(v.a) if not isinstance(v.a, Lin) else None
        val_keys(v.a, out)

def has_fresh(k):
    """Does the key mention a per-run fresh symbol?"""
    if isinstance(k, tuple):
        if k and k[0] in ("fr", "hd"): return True
        return any(has_fresh(x) for x in k)
    if isinstance(k, Lin): return any(has_fresh(a) for a, _ in k.t)
    return False

def many_segs(v):
    if isinstance(v, Seq): return sum(1 for x in v.segs if x[0] != "el") > 8
    if isinstance(v, Agg): return any(many_segs(x) for x in v.f)
    if isinstance(v, VRef): return many_segs(v.v)
    return False

def finite_iter(I, v):
    """Iterations at most to be expected of a stored iterator over a list of known length (0: none such)."""
    if isinstance(v, Obj):
        if v.tag == "it" and isinstance(v.f[1], Lin) and isinstance(v.f[2], Lin): n = v.f[2] - v.f[1]
        elif v.tag == "itm": n = v.f[3] - v.f[2]
        else: return max((finite_iter(I, x) for x in v.f), default=0)
        return n.c if n.is_const() and 0 < n.c <= 24 else 0
    if isinstance(v, Agg):
        if v.ty is not None and I.adt_path(v.ty) in ("core::ops::range::Range", "core::ops::Range") and len(v.f) == 2 and all(isinstance(x, Lin) for x in v.f):
            n = v.f[1] - v.f[0]
            return n.c if n.is_const() and 0 < n.c <= 24 else 0
        return max((finite_iter(I, x) for x in v.f), default=0)
    return 0
def has_slot(k):
    """Does the key mention a loop counter?"""
    if isinstance(k, tuple): return any(has_slot(x) for x in k)
    if isinstance(k, Lin): return any(a[0] == "v" and isinstance(a[1], tuple) and a[1][0] in ("lp", "old") or has_slot(a) for a, _ in k.t)
    return False

def has_sub(k, x):
    """Does key k contain key x?"""
    if k == x: return True
    if isinstance(k, tuple): return any(has_sub(y, x) for y in k)
    if isinstance(k, Lin): return any(has_sub(a, x) for a, _ in k.t)
    return False

def fresh_in(v, out):
    """Fresh keys occurring in a value or key."""
    if isinstance(v, tuple):
        if v and v[0] in ("fr", "hd"): out.add(v); return
        for x in v: fresh_in(x, out)
    elif isinstance(v, Lin):
        for a, _ in v.t: fresh_in(a, out)
    elif isinstance(v, (Agg, Obj)):
        for x in v.f: fresh_in(x, out)
    elif isinstance(v, VRef): fresh_in(v.v, out)
    elif isinstance(v, Seq): fresh_in(v.segs, out)
    elif isinstance(v, Sym): fresh_in(v.key, out)
    elif isinstance(v, MRef): fresh_in(v.loc, out); fresh_in(v.path, out)
    elif isinstance(v, Pred): fresh_in(v.a, out)

def rekey(v, m):
    if isinstance(v, tuple):
        r = m.get(v)
        if r is not None: return r
        return tuple(rekey(x, m) for x in v)
    if isinstance(v, Lin): return Lin.of({rekey(a, m): k for a, k in v.t}, v.c)
    if isinstance(v, Agg): return Agg(v.ty, v.var, [rekey(x, m) for x in v.f])
    if isinstance(v, VRef): return VRef(rekey(v.v, m))
    if isinstance(v, Seq): return Seq(v.kind, [rekey(x, m) for x in v.segs], v.ety)
    if isinstance(v, Sym): return Sym(rekey(v.key, m), v.ty)
    if isinstance(v, MRef): return MRef(rekey(v.loc, m), rekey(v.path, m))
    if isinstance(v, Obj): return Obj(v.tag, *[rekey(x, m) for x in v.f])
    if isinstance(v, Pred): return Pred(v.op, rekey(v.a, m), v.neg)
    return v

def has_old(k, name):
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == "old" and k[1] == name: return True
        return any(has_old(x, name) for x in k)
    if isinstance(k, Lin): return any(has_old(a, name) for a, _ in k.t)
    return False

def hash_short(k):
    import zlib
    return zlib.crc32(repr(k).encode())
