"""Class invariants by fixpoint, and comparison helpers for the specifications."""
from lin import Lin, project, feasible
from absint import (V, Sym, Agg, Seq, VRef, MRef, Obj, Pred, State, Imprecise, U, UNIT, val_atoms, key_atoms, vmap, kmap, rekey, val_keys, mrefs)

SELF = ("H", "self")

def struct_ty(cr, suffix):
    l = [i for i, t in enumerate(cr.types) if t["k"] == "adt" and (t["path"] == suffix or t["path"].endswith("::" + suffix)) and not t["args"]]
    if len(l) != 1:
        l2 = sorted(set(l), key=lambda i: cr.types[i]["path"])
        if not l2: raise KeyError(f"anchor type {suffix} not found")
        l = l2[:1]
    return l[0]

def field_index(cr, tid, name):
    fs = cr.types[tid]["variants"][0]["fields"]
    for i, f in enumerate(fs):
        if f["name"] == name: return i
    raise KeyError(f"anchor field {cr.types[tid]['path']}.{name} not found")

def takes(cr, tid, f):
    """A method or constructor of the type, or a closure within one."""
    while f is not None and f.closure_of:
        l = [g for g in cr.by_path.get(f.path.rsplit("::{closure", 1)[0], ()) if g.local]
        f = l[0] if l else None
    if f is None: return False
    if f.locals[0]["ty"] == tid: return True
    t = cr.types[f.locals[1]["ty"]] if f.nargs else {"k": "none"}
    return t["k"] == "ref" and t["to"] == tid

def mentions(j, out):
    if isinstance(j, dict):
        for k in ("path", "rpath"):
            if isinstance(j.get(k), str): out.add(j[k])
        for v in j.values(): mentions(v, out)
    elif isinstance(j, list):
        for v in j: mentions(v, out)

def helpers(cr, tid):
    """Methods visible in the type's own module only, and named only by other methods of the type:
    they run as parts of those, never on an object in one of the states between operations."""
    mod = cr.types[tid]["path"].rsplit("::", 1)[0]
    cand = {f.path: f for f in cr.fns if f.local and not f.closure_of and not f.impl_trait and takes(cr, tid, f)
            and str(f.vis).startswith("Restricted(") and str(f.vis).rstrip(")").split("]::", 1)[-1] == mod}
    if not cand: return set()
    out = set(cand)
    for f in cr.fns:
        if not f.local or takes(cr, tid, f): continue
        m = set(); mentions(f.body, m); mentions(f.promoted, m)
        out -= m
    return out

def methods(cr, tid):
    """Local fns with a self receiver of the type: -> (mutating, reading, ctors)"""
    mut, rd, ctor = [], [], []
    inner = helpers(cr, tid)
    for f in cr.fns:
        if not f.local or f.closure_of or f.raw.get("mono") or f.path in inner: continue
        if f.nargs >= 1:
            t = cr.types[f.locals[1]["ty"]]
            if t["k"] == "ref" and t["to"] == tid:
                (mut if t["mut"] else rd).append(f); continue
        rt = f.locals[0]["ty"]
        if rt == tid: ctor.append(f)
    return mut, rd, ctor

def norm_object(I, st, v, path, ty):
    """Rename a value to canonical symbols of `path`; -> list of (state, value)."""
    if isinstance(v, Lin):
        a = Lin.atom(("s", ("inv", path), I.int_bits(ty) or 64))
        st = st.copy(); st.cons = st.cons + (a - v, v - a)
        return [(st, a)]
    if isinstance(v, bool): return [(st, v)]
    if isinstance(v, Pred):
        return [(s, x) for s, x in st.split(v)]
    if isinstance(v, Seq):
        n = I.seq_len(v)
        outs = []
        base = ("c", ("inv", path)); I.base_ety[base] = v.ety
        e = st.copy()
        if e.add_eq(n): outs.append((e, Seq(v.kind, (), v.ety)))
        x = st.copy()
        if x.add_le(-n + 1):
            nn = Lin.atom(("n", base)); x.cons = x.cons + (nn - n, n - nn, -nn + 1)
            # byte measures at the segment boundaries carry over
            if v.kind == "str" or (v.ety is not None and I.ty(v.ety)["k"] == "char"):
                cum = Lin.const(0); cb = Lin.const(0)
                try:
                    for sg in v.segs:
                        cum = cum + I.seg_len(sg); cb = cb + I.seg_bytes(sg)
                        if not cum.is_const() or cum.c:
                            u = U(base, cum); x.cons = x.cons + (u - cb, cb - u)
                except Imprecise: pass
            outs.append((x, Seq(v.kind, [("run", base, Lin.const(0), nn)], v.ety)))
        return outs
    if isinstance(v, Agg):
        cur = [(st, [])]
        for i, x in enumerate(v.f):
            nxt = []
            for s, acc in cur:
                for s2, y in norm_object(I, s, x, path + (v.var, i), field_ty(I, ty, v.var, i)): nxt.append((s2, acc + [y]))
            cur = nxt
        return [(s, Agg(v.ty, v.var, acc)) for s, acc in cur]
    if isinstance(v, Sym):
        t = I.ty(v.ty) if v.ty is not None else {"k": "other"}
        if t["k"] == "adt" and t["enum"] and t["variants"] and len(t["variants"]) <= 3:
            outs = []
            for s, dv in I.discr(st, v, v.ty):
                for vi in range(len(t["variants"])):
                    if I.discr_of(v.ty, vi) == dv.c:
                        outs += norm_object(I, s, I.expand(v, vi), path, ty)
            return outs
        return [(st, Sym(("inv", path), v.ty if v.ty is not None else ty))]
    if isinstance(v, Obj):
        if v.tag in ("arc", "box"):
            return [(s, Obj(v.tag, y)) for s, y in norm_object(I, st, v.f[0], path + (v.tag,), arg0(I, ty))]
        return [(st, Sym(("inv", path), ty))]
    if isinstance(v, VRef):
        return [(s, VRef(y)) for s, y in norm_object(I, st, v.v, path + ("*",), I.ty(ty).get("to") if ty is not None else None)]
    return [(st, Sym(("inv", path), ty))]

def field_ty(I, ty, var, i):
    if ty is None: return None
    t = I.ty(ty)
    if t["k"] == "adt" and t["variants"]: return t["variants"][var or 0]["fields"][i]["ty"]
    if t["k"] == "tuple": return t["elems"][i]
    if t["k"] == "array": return t["elem"]
    if t["k"] == "closure": return t["upvars"][i]
    return None

def arg0(I, ty):
    t = I.ty(ty) if ty is not None else {}
    return t["args"][0] if t.get("args") else None

def has_inv(a, ghosts=()):
    if isinstance(a, tuple):
        if a and a[0] == "inv": return True
        return any(has_inv(x) for x in a)
    if isinstance(a, Lin): return any(has_inv(x) for x, _ in a.t)
    return False

def retag(v, a, b):
    """Rename keys headed by tag a to tag b everywhere in a value."""
    if isinstance(v, tuple):
        if v and v[0] == a: return (b,) + tuple(retag(x, a, b) for x in v[1:])
        return tuple(retag(x, a, b) for x in v)
    if isinstance(v, Lin): return Lin.of({retag(t, a, b): k for t, k in v.t}, v.c)
    if isinstance(v, Agg): return Agg(v.ty, v.var, [retag(x, a, b) for x in v.f])
    if isinstance(v, VRef): return VRef(retag(v.v, a, b))
    if isinstance(v, Seq): return Seq(v.kind, [retag(x, a, b) for x in v.segs], v.ety)
    if isinstance(v, Sym): return Sym(retag(v.key, a, b), v.ty)
    if isinstance(v, MRef): return MRef(retag(v.loc, a, b), retag(v.path, a, b))
    if isinstance(v, Obj): return Obj(v.tag, *[retag(x, a, b) for x in v.f])
    if isinstance(v, Pred): return Pred(v.op, retag(v.a, a, b), v.neg)
    return v

def canon(I, st, obj, ghost):
    """Canonical object states of a result state: only invariant symbols remain."""
    res = []
    st = st.copy()
    st.mem = {}; st.cons = tuple(retag(e, "inv", "pre") for e in st.cons)
    st.facts = {retag(k, "inv", "pre"): v for k, v in st.facts.items()}
    st.trace = (); st.ghost = {}
    obj = retag(obj, "inv", "pre"); ghost = {k: retag(v, "inv", "pre") for k, v in ghost.items()}
    out = norm_object(I, st, obj, (), obj.ty)
    for s, v in out:
        s = s.copy()
        g = {}
        for k, x in sorted(ghost.items()):
            if isinstance(x, Lin):
                a = Lin.atom(("v", ("inv", ("ghost", k)))); s.cons = s.cons + (a - x, x - a); g[k] = a
            else: g[k] = x
        if s.infeasible(): continue
        ats = set()
        for e in s.cons: ats.update(e.atoms())
        # U atoms over the canonical base with an index that is not canonical: rewrite through equalities
        live = set(); val_atoms(v, live)
        for x in g.values(): val_atoms(x, live)
        keep = {a for a in ats if (a in live) or (a[0] == "U" and has_inv(a[1]) and all(b in live for b in a[2].atoms()))}
        extra = []
        us = [a for a in ats if a[0] == "U" and has_inv(a[1])]
        cand = [x for x in live if x[0] in ("s", "v")]
        for u in us:
            if u in keep: continue
            for x in cand:
                if s.entails_eq(u[2] - Lin.atom(x)):
                    nu = ("U", u[1], Lin.atom(x)); extra += [Lin.atom(nu) - Lin.atom(u), Lin.atom(u) - Lin.atom(nu)]; keep.add(nu)
        cons = list(s.cons) + extra + s._basic(ats - keep)
        p = project(tuple(cons), keep) if cons else []
        n = State()
        n.cons = tuple(p) if p is not None else ()
        n.mem[SELF] = v; n.ghost = g
        res.append(n)
    return res

class Inv:
    """Reachable abstract object states of a struct under all of its mutating methods."""
    def __init__(self, I, tid, ctor_states, ops, ghost0=None, max_rounds=40, narrow=1):
        """ctor_states: [(State, object value)]; ops: [(name, apply)] with
        apply(I, st) -> [(State, ghost dict)] executed on a state whose object is at SELF."""
        self.I = I; self.tid = tid; self.widen = True
        self.parts = {}      # shape -> [State, joins]
        dirty = []
        I.record += 1
        try:
            for st, v in ctor_states:
                for c in canon(I, st, v, ghost0(st, v) if ghost0 else {}): dirty += self.add(c)
            rounds = 0
            while dirty:
                rounds += 1
                if rounds > max_rounds: raise Imprecise("class invariant does not converge")
                nd = []
                for k in dict.fromkeys(dirty):
                    pre = self.parts[k][0]
                    for name, apply in ops:
                        for st, gh in apply(I, pre.copy()):
                            for c in canon(I, st, st.mem[SELF], gh): nd += self.add(c)
                dirty = nd
            # narrowing: parts is a post-fixpoint, so its image joined with the constructors is one too
            for _ in range(narrow):
                imgs = []
                for st, v in ctor_states: imgs += canon(I, st, v, ghost0(st, v) if ghost0 else {})
                for k in list(self.parts):
                    for name, apply in ops:
                        for st, gh in apply(I, self.parts[k][0].copy()): imgs += canon(I, st, st.mem[SELF], gh)
                self.parts = {}; self.widen = False
                for c in imgs: self.add(c)
        finally: I.record -= 1
        self.rounds = rounds
    def states(self):
        return [self.parts[k][0].copy() for k in sorted(self.parts, key=repr)]
    def add(self, c):
        key, _ = self.I.state_shape(c)
        if key not in self.parts:
            if len(self.parts) > 64: raise Imprecise("too many object states")
            self.parts[key] = [c, 0]; return [key]
        H, nj = self.parts[key]
        if c.mem != H.mem: raise Imprecise("object states of one shape differ")
        if all(c.entails_le(e) for e in H.cons): return []
        cand = [e for e in H.cons if c.entails_le(e)]
        if nj < 4 or not self.widen:
            cand += [e for e in c.cons if e not in cand and H.entails_le(e)]
            live = set(); val_atoms(H.mem[SELF], live)
            for x in H.ghost.values(): val_atoms(x, live)
            L = [Lin.atom(a) for a in sorted(live, key=repr)] + [Lin.const(0)]
            for x in L:
                for y in L:
                    if x == y: continue
                    e = x - y
                    b1 = self.I.sup(H, e); b2 = self.I.sup(c, e)
                    if b1 is None or b2 is None: continue
                    z = e - max(b1, b2)
                    if z not in cand: cand.append(z)
        else:
            live = set(); val_atoms(H.mem[SELF], live)
            for x in H.ghost.values(): val_atoms(x, live)
            L = [Lin.atom(a) for a in sorted(live, key=repr)]
            for x in L:
                for t in self.I.thr:
                    if H.entails_le(x - t) and c.entails_le(x - t): cand.append(x - t); break
        J = H.copy(); J.cons = self.I.reduce(cand)
        self.parts[key] = [J, nj + 1]
        return [key]

# ---------------------------------------------------------------- comparison
def split_empty(I, st, seqs):
    """Case-split until every run is known to be non-empty (after normalisation)."""
    work = [st]; out = []
    while work:
        s = work.pop()
        for q in seqs:
            amb = None
            for x in I.norm_segs(s, q.segs):
                if x[0] == "run" and not s.entails_le(x[2] - x[3] + 1): amb = x[3] - x[2]; break
            if amb is not None:
                a = s.copy()
                if a.add_eq(amb): work.append(a)
                b = s.copy()
                if b.add_le(-amb + 1): work.append(b)
                break
        else: out.append(s)
    return out

def val_equal(I, st, a, b):
    if isinstance(a, Lin) and isinstance(b, Lin): return st.entails_eq(a - b)
    if isinstance(a, Seq) and isinstance(b, Seq): return seq_equal(I, st, a, b)
    if isinstance(a, VRef) and isinstance(b, VRef): return val_equal(I, st, a.v, b.v)
    if isinstance(a, (bool, Pred)) and isinstance(b, (bool, Pred)):
        if a == b: return True
        da, db = st.decide(a), st.decide(b)
        if da is not None and da == db: return True
        r = I.eq(st, a, b)
        return all(x is True for _, x in r)
    if isinstance(a, Agg) and isinstance(b, Agg): return a.var == b.var and len(a.f) == len(b.f) and all(val_equal(I, st, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Sym) and isinstance(b, Sym): return key_equal(I, st, a.key, b.key)
    if isinstance(a, Obj) and isinstance(b, Obj): return a.tag == b.tag and len(a.f) == len(b.f) and all(val_equal(I, st, x, y) if isinstance(x, V) else x == y for x, y in zip(a.f, b.f))
    return a == b

def key_equal(I, st, a, b):
    if isinstance(a, Lin) and isinstance(b, Lin): return st.entails_eq(a - b)
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(key_equal(I, st, x, y) for x, y in zip(a, b))
    if isinstance(a, V) and isinstance(b, V): return val_equal(I, st, a, b)
    return a == b

def seq_equal(I, st, a, b):
    """Are two sequences element-wise equal in every concretisation of st?"""
    for s in split_empty(I, st, [a, b]):
        x = I.norm_segs(s, a.segs, True); y = I.norm_segs(s, b.segs, True)
        if len(x) != len(y): return False
        for p, q in zip(x, y):
            if p[0] != q[0]: return False
            if p[0] in ("run", "cat"):
                if not (key_equal(I, s, p[1], q[1]) and s.entails_eq(p[2] - q[2]) and s.entails_eq(p[3] - q[3])): return False
            elif not val_equal(I, s, p[1], q[1]): return False
    return True

def deref(I, st, v):
    while True:
        if isinstance(v, VRef): v = v.v
        elif isinstance(v, MRef): v = I.rd(st, v.loc, v.path)
        elif isinstance(v, Obj) and v.tag in ("arc", "box"): v = v.f[0]
        else: return v

def show(st):
    return f"{'; '.join(map(repr, st.cons))} | facts {st.facts}" if st.facts else "; ".join(repr(e) + " <= 0" for e in st.cons)
