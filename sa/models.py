"""Models of std / crossbeam functions used by the abstract interpreter (by resolved path)."""
import re
from lin import Lin
from absint import (V, Sym, Agg, Seq, VRef, MRef, Obj, FnV, Pred, UNIT, U, Imprecise, mrefs, CHARPRED)
from facts import strip_generics

MODELS = {}
TRAITS = {}     # (last component of trait, method) -> model
ZERO = Lin.const(0); ONE = Lin.const(1)

def m(*names):
    def deco(f):
        for n in names: MODELS[n] = f
        return f
    return deco

def tm(tr, *names):
    def deco(f):
        for n in names: TRAITS[(tr, n)] = f
        return f
    return deco

_norm = {}
def norm_path(p):
    r = _norm.get(p)
    if r is None:
        r = strip_generics(p)
        r = re.sub(r"^core::num::<impl (\w+)>::", "int::", r)
        r = re.sub(r"^(core|alloc)::str::<impl str>::", "str::", r)
        r = re.sub(r"^(core|alloc)::slice::<impl \[T\]>::", "slice::", r)
        r = re.sub(r"^core::char::methods::<impl char>::", "char::", r)
        r = re.sub(r"^core::bool::<impl bool>::", "bool::", r)
        r = re.sub(r"^std::sync::mpsc::", "chan::", r)
        r = re.sub(r"^(crossbeam_channel|crossbeam::channel)(::\w+)*::(Receiver|Sender)::", r"chan::\3::", r)
        r = re.sub(r"^crossbeam_channel::channel::(unbounded|bounded)$", r"chan::\1", r)
        _norm[p] = r
    return r

class C:
    """Call context handed to the models."""
    __slots__ = ("I", "f", "d", "t", "fn", "path")
    def __init__(s, I, f, d, t, fn, path): s.I = I; s.f = f; s.d = d; s.t = t; s.fn = fn; s.path = path
    @property
    def dty(s): return s.t.get("dty")
    @property
    def sp(s): return s.t.get("sp")
    def ok(s, kind, good, st=None, detail=""):
        s.I.oblige(s.fn, s.sp, kind, good, st, detail) if s.fn is not None else None

def dispatch(I, st, f, args, d, t, fn):
    p = f.get("rpath") or f["path"]
    np = norm_path(p)
    c = C(I, f, d, t, fn, np)
    if I.call_hook is not None:
        r = I.call_hook(c, st, np, args)
        if r is not None: return r
    mod = I.models.get(np)
    if mod is None:
        np2 = norm_path(f["path"])
        mod = I.models.get(np2)
        if mod is not None: c.path = np2
    if mod is None and f.get("trait"):
        mod = TRAITS.get((f["trait"].split("::")[-1], f["name"]))
    if mod is None: return None
    r = mod(c, st, *args)
    if r is not None: I.calls_modelled.add(c.path)
    return r

# ------------------------------------------------------------------ helpers
def peel(I, st, v):
    while True:
        if isinstance(v, VRef): v = v.v
        elif isinstance(v, MRef): v = I.rd(st, v.loc, v.path)
        else: return v

def peel1(I, st, v):
    """Value behind one or more references, stopping at an owned value."""
    return peel(I, st, v)

def target(I, st, v):
    """(loc, path) of the place a &mut argument denotes."""
    if not isinstance(v, MRef): raise Imprecise(f"&mut expected, got {v!r}")
    while True:
        x = I.rd(st, v.loc, v.path)
        if isinstance(x, MRef): v = x
        else: return v.loc, v.path

def opt_ty(I, c): 
    t = I.ty(c.dty)
    return c.dty

def some(ty, v): return Agg(ty, 1, (v,))
def none(ty): return Agg(ty, 0, ())
def okv(ty, v): return Agg(ty, 0, (v,))

def as_seq(I, st, v):
    v = peel(I, st, v)
    if isinstance(v, Seq): return v
    if isinstance(v, Agg) and v.ty is not None and I.ty(v.ty)["k"] == "array":
        return Seq("vec", [("el", x) for x in v.f], I.ty(v.ty)["elem"])
    if isinstance(v, Agg) and v.ty is None and v.var is None and v.f:
        return Seq("vec", [("el", x) for x in v.f], None)
    if isinstance(v, Obj) and v.tag in ("arc", "box"): return as_seq(I, st, v.f[0])
    raise Imprecise(f"sequence expected, got {v!r}")

def cat(I, st, s, extra, kind=None):
    return Seq(kind or s.kind, I.norm_segs(st, tuple(s.segs) + tuple(extra)), s.ety)

def rng(I, st, r, n):
    """Range value -> (lo, hi) as Lins; n = length for open ends."""
    r = peel(I, st, r)
    if isinstance(r, Sym):
        p = I.adt_path(r.ty)
        if p == "core::ops::range::RangeFull": return ZERO, n
        return None
    if not isinstance(r, Agg): return None
    p = I.adt_path(r.ty)
    if p == "core::ops::range::RangeFull": return ZERO, n
    if p == "core::ops::range::Range": return r.f[0], r.f[1]
    if p == "core::ops::range::RangeTo": return ZERO, r.f[0]
    if p == "core::ops::range::RangeFrom": return r.f[0], n
    if p == "core::ops::range::RangeInclusive": return r.f[0], r.f[1] + 1
    if p == "core::ops::range::RangeToInclusive": return ZERO, r.f[0] + 1
    return None

def vec_range(c, st, s, r):
    """Slice a Vec/slice by a range with bounds obligations -> [(st, Seq)]"""
    I = c.I; n = I.seq_len(s)
    ab = rng(I, st, r, n)
    if ab is None: raise Imprecise("range")
    a, b = ab
    good = st.entails_le(a - b) and st.entails_le(b - n) and st.entails_le(-a)
    c.ok("slice bounds", good, st, f"{a}..{b} of len {n}")
    if not good:
        st = st.copy()
        if not (st.add_le(a - b) and st.add_le(b - n) and st.add_le(-a)): return []
    return I.seq_slice(st, s, a, b)

def str_range(c, st, s, r):
    I = c.I; n = I.seq_bytes(s)
    ab = rng(I, st, r, n)
    if ab is None: raise Imprecise("range")
    a, b = ab
    ca = I.byte_to_char(st, s, a); cb = I.byte_to_char(st, s, b)
    c.ok("str char boundary", ca is not None and cb is not None, st, f"{a}..{b}")
    if ca is None or cb is None:
        key = I.fresh("substr")
        return [(st, I.mkseq("str", key, s.ety))]
    nl = I.seq_len(s)
    good = st.entails_le(ca - cb) and st.entails_le(cb - nl) and st.entails_le(-ca)
    c.ok("slice bounds", good, st, f"{a}..{b}")
    if not good:
        st = st.copy()
        if not (st.add_le(ca - cb) and st.add_le(cb - nl) and st.add_le(-ca)): return []
    return I.seq_slice(st, s, ca, cb)

def is_str(s): return isinstance(s, Seq) and s.kind == "str"

# ------------------------------------------------------------------ integers
@m("int::saturating_sub")
def _(c, st, a, b):
    if not (isinstance(a, Lin) and isinstance(b, Lin)): return None
    if c.I.int_bits(c.dty) is not None and c.I.int_bits(c.dty) < 0: return None
    out = []
    n = st.copy()
    if n.add_le(b - a): out.append((n, a - b))
    n = st.copy()
    if n.add_le(a - b + 1): out.append((n, ZERO))
    return out

@m("int::saturating_add")
def _(c, st, a, b):
    bits = c.I.int_bits(c.dty) or 64
    if not (isinstance(a, Lin) and isinstance(b, Lin)) or bits < 0: return None
    from absint import MAXU
    hi = MAXU[bits]; out = []
    n = st.copy()
    if n.add_le(a + b - hi): out.append((n, a + b))
    n = st.copy()
    if n.add_le(-(a + b) + hi + 1): out.append((n, Lin.const(hi)))
    return out

@m("int::wrapping_add", "int::wrapping_sub", "core::intrinsics::wrapping_add", "core::intrinsics::wrapping_sub")
def _(c, st, a, b):
    if not (isinstance(a, Lin) and isinstance(b, Lin)): return None
    return c.I.wrap(st, a + b if c.path.endswith("add") else a - b, c.I.int_bits(c.dty) or 64)

@m("int::checked_sub", "int::checked_add")
def _(c, st, a, b):
    from absint import MAXU
    ity = c.I.ty(c.dty)["args"][0]; bits = c.I.int_bits(ity)
    if bits < 0: return None
    e = a - b if c.path.endswith("sub") else a + b
    out = []
    n = st.copy()
    if n.add_le(-e) and n.add_le(e - MAXU[bits]): out.append((n, some(c.dty, e)))
    n = st.copy()
    if n.add_le(e + 1 if c.path.endswith("sub") else -e + MAXU[bits] + 1): out.append((n, none(c.dty)))
    return out

@m("int::abs_diff")
def _(c, st, a, b):
    out = []
    n = st.copy()
    if n.add_le(b - a): out.append((n, a - b))
    n = st.copy()
    if n.add_le(a - b + 1): out.append((n, b - a))
    return out

def minmax(c, st, a, b, mn):
    if not (isinstance(a, Lin) and isinstance(b, Lin)): return None
    out = []
    n = st.copy()
    if n.add_le(a - b): out.append((n, a if mn else b))
    n = st.copy()
    if n.add_le(b - a + 1): out.append((n, b if mn else a))
    return out
@m("core::cmp::min", "core::cmp::Ord::min", "core::cmp::impls::<impl core::cmp::Ord for usize>::min")
def _(c, st, a, b): return minmax(c, st, a, b, True)
@m("core::cmp::max", "core::cmp::Ord::max", "core::cmp::impls::<impl core::cmp::Ord for usize>::max")
def _(c, st, a, b): return minmax(c, st, a, b, False)
@tm("Ord", "min")
def _(c, st, a, b): return minmax(c, st, a, b, True)
@tm("Ord", "max")
def _(c, st, a, b): return minmax(c, st, a, b, False)
@tm("Ord", "clamp")
def _(c, st, x, lo, hi):
    if not all(isinstance(v, Lin) for v in (x, lo, hi)): return None
    good = st.entails_le(lo - hi)
    c.ok("clamp lo<=hi", good, st)
    out = []
    for s, v in minmax(c, st, x, lo, False): out += minmax(c, s, v, hi, True)
    return out
@tm("Ord", "cmp")
def _(c, st, a, b):
    a = c.I.as_lin(peel(c.I, st, a)); b = c.I.as_lin(peel(c.I, st, b))
    if a is None or b is None: return None
    return c.I.binop(st, "Cmp", a, b, None)
@tm("PartialOrd", "lt", "le", "gt", "ge")
def _(c, st, a, b):
    a = c.I.as_lin(peel(c.I, st, a)); b = c.I.as_lin(peel(c.I, st, b))
    if a is None or b is None: return None
    return c.I.binop(st, c.f["name"].capitalize(), a, b, None)
@tm("PartialEq", "eq", "ne")
def _(c, st, a, b):
    x, y = peel(c.I, st, a), peel(c.I, st, b)
    r = c.I.eq(st, x, y)
    if r is None:
        if c.f.get("id") is not None: return None
        r = [(st, Pred("atom", ("eq", x, y)))]
    if c.f["name"] == "ne": r = [(s, (not v) if isinstance(v, bool) else v.inv()) for s, v in r]
    return r
for op, nm in (("add", "Add"), ("sub", "Sub")):
    def _(c, st, a, b, nm=nm):
        a, b = peel(c.I, st, a), peel(c.I, st, b)
        if not (isinstance(a, Lin) and isinstance(b, Lin)): return None
        r = c.I.binop(st, nm + "WithOverflow", a, b, c.dty); out = []
        for s, v in r:
            c.ok("arith " + nm, s.decide(v.f[1]) is False, s)
            for s2 in s.copy().assume(v.f[1], False): out.append((s2, v.f[0]))
        return out
    TRAITS[(nm, op)] = _
for op, nm in (("add_assign", "Add"), ("sub_assign", "Sub")):
    def _(c, st, a, b, nm=nm):
        loc, path = target(c.I, st, a); cur = c.I.rd(st, loc, path); b = peel(c.I, st, b)
        if isinstance(cur, Seq) and nm == "Add":
            c.I.wr(st, loc, path, cat(c.I, st, cur, as_seq(c.I, st, b).segs)); return [(st, UNIT)]
        if not (isinstance(cur, Lin) and isinstance(b, Lin)): return None
        out = []
        for s, v in c.I.binop(st, nm + "WithOverflow", cur, b, None):
            c.ok("arith " + nm, s.decide(v.f[1]) is False, s)
            for s2 in s.copy().assume(v.f[1], False):
                c.I.wr(s2, loc, path, v.f[0]); out.append((s2, UNIT))
        return out
    TRAITS[(nm + "Assign", op)] = _
@tm("BitOrAssign", "bitor_assign")
def _(c, st, a, b):
    if not c.I.is_bool(peel(c.I, st, a)): return None
    loc, path = target(c.I, st, a); cur = c.I.rd(st, loc, path); out = []
    for s, v in c.I.binop(st, "BitOr", cur, peel(c.I, st, b), None):
        c.I.wr(s, loc, path, v); out.append((s, UNIT))
    return out
@tm("Not", "not")
def _(c, st, a):
    a = peel(c.I, st, a)
    if isinstance(a, bool): return [(st, not a)]
    if isinstance(a, Pred): return [(st, a.inv())]
    return None

# ------------------------------------------------------------------ mem, clone, convert, borrow
@m("core::mem::replace")
def _(c, st, a, v):
    loc, path = target(c.I, st, a); old = c.I.rd(st, loc, path); c.I.wr(st, loc, path, v); return [(st, old)]
@m("core::mem::swap")
def _(c, st, a, b):
    la, pa = target(c.I, st, a); lb, pb = target(c.I, st, b)
    x, y = c.I.rd(st, la, pa), c.I.rd(st, lb, pb)
    c.I.wr(st, la, pa, y); c.I.wr(st, lb, pb, x); return [(st, UNIT)]
@m("core::mem::take")
def _(c, st, a):
    loc, path = target(c.I, st, a); old = c.I.rd(st, loc, path)
    c.I.wr(st, loc, path, default_of(c.I, old, c.dty)); return [(st, old)]
def default_of(I, v, ty):
    if isinstance(v, Seq): return Seq(v.kind, (), v.ety)
    if isinstance(v, Lin): return ZERO
    if I.is_bool(v): return False
    if isinstance(v, (Agg, Sym)) and I.adt_path(ty) == "core::option::Option": return none(ty)
    raise Imprecise("default")
@m("core::mem::drop", "core::mem::forget")
def _(c, st, v):
    if c.path.endswith("drop"): c.I.on_drop(st, c.fn, c.t, v)
    return [(st, UNIT)]
@tm("Default", "default")
def _(c, st):
    I = c.I; t = I.ty(c.dty)
    if t["k"] in ("uint", "int"): return [(st, ZERO)]
    if t["k"] == "bool": return [(st, False)]
    p = I.adt_path(c.dty)
    if p == "core::option::Option": return [(st, none(c.dty))]
    if p in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"): return [(st, Seq("vec", (), t["args"][0]))]
    if p == "alloc::string::String": return [(st, Seq("str", (), I.ty_id("char")))]
    if t["k"] == "tuple" and not t["elems"]: return [(st, UNIT)]
    return None
@tm("Clone", "clone")
def _(c, st, a):
    v = a
    if isinstance(v, VRef): v = v.v
    elif isinstance(v, MRef): v = c.I.rd(st, v.loc, v.path)
    if isinstance(v, (Seq, Lin, bool, Pred, Obj, VRef)): return [(st, v)]
    if c.f.get("id") is not None and c.f.get("local"): return None
    return [(st, v)]
@tm("Clone", "clone_from")
def _(c, st, a, b):
    loc, path = target(c.I, st, a); c.I.wr(st, loc, path, peel(c.I, st, b)); return [(st, UNIT)]
@tm("ToOwned", "to_owned")
def _(c, st, a): return [(st, peel(c.I, st, a))]
@tm("ToString", "to_string")
def _(c, st, a):
    v = peel(c.I, st, a)
    if isinstance(v, Seq): return [(st, v)]
    if isinstance(v, Sym) and c.I.ty(v.ty)["k"] == "char" or (isinstance(v, Lin) and v.is_const()):
        return [(st, Seq("str", [("el", v)], c.I.ty_id("char")))] if not isinstance(v, Lin) else None
    return None
@m("slice::to_vec", "str::to_owned", "str::to_string", "alloc::string::String::into_boxed_str", "alloc::string::String::as_str", "alloc::vec::Vec::as_slice",
   "alloc::string::String::as_mut_str", "slice::into_vec", "alloc::vec::Vec::into_boxed_slice")
def _(c, st, a):
    s = as_seq(c.I, st, a)
    if c.path.endswith(("as_str", "as_slice", "as_mut_str")): return [(st, VRef(s))]
    return [(st, s)]
@m("alloc::vec::Vec::as_mut_slice")
def _(c, st, a): return [(st, a)]
@tm("Deref", "deref")
def _(c, st, a):
    v = peel(c.I, st, a)
    if isinstance(v, Seq): return [(st, VRef(v))]
    if isinstance(v, Obj) and v.tag in ("arc", "box"): return [(st, VRef(v.f[0]))]
    if isinstance(v, Sym):
        if c.f.get("local"): return None
        t = c.I.ty(c.dty)
        if t["k"] == "ref": return [(st, VRef(c.I.mkval((v.key, "deref"), t["to"])))]
    return None
@tm("DerefMut", "deref_mut")
def _(c, st, a):
    v = peel(c.I, st, a)
    if isinstance(v, Seq): return [(st, a if not isinstance(c.I.rd(st, a.loc, a.path), MRef) else c.I.rd(st, a.loc, a.path))]
    if isinstance(v, Obj) and v.tag == "box":
        loc, path = target(c.I, st, a); return [(st, MRef(loc, path + ("box",)))]
    return None
@tm("AsRef", "as_ref")
def _(c, st, a):
    v = peel(c.I, st, a)
    if isinstance(v, Seq): return [(st, VRef(v))]
    if isinstance(v, Obj) and v.tag in ("arc", "box"): return [(st, VRef(v.f[0]))]
    return None
@tm("Borrow", "borrow")
def _(c, st, a): return [(st, a)]
@tm("From", "from")
def _(c, st, a): return conv(c, st, a)
@tm("Into", "into")
def _(c, st, a): return conv(c, st, a)
@tm("TryInto", "try_into")
def _(c, st, a): return None
def conv(c, st, a):
    I = c.I; t = I.ty(c.dty); p = I.adt_path(c.dty)
    v = peel(I, st, a)
    if p in ("alloc::string::String", "alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
        if isinstance(v, Seq): return [(st, Seq("str" if p.endswith("String") else "vec", v.segs, v.ety))]
        if isinstance(v, (Sym, Lin)) and p.endswith("String") and (isinstance(v, Lin) or I.ty(v.ty)["k"] == "char"): return [(st, Seq("str", [("el", v)], I.ty_id("char")))]
        return None
    if p in ("alloc::sync::Arc", "alloc::rcs::arc::Arc"): return [(st, Obj("arc", v))]
    if p == "alloc::boxed::Box": return [(st, Obj("box", a))]
    if t["k"] in ("uint", "int") and isinstance(v, (Lin, bool, Pred)):
        if isinstance(v, Lin): return [(st, v)]
        return I.cast_int(st, v, c.dty, c.dty)
    if p == "core::option::Option" and not c.f.get("local"): return [(st, some(c.dty, a))]
    if c.f.get("path", "").endswith("From::from") or True:
        # identity conversion T: From<T>
        sa = c.f.get("rpath") or ""
        if sa.startswith("<T as core::convert::From<T>>") or sa.startswith("<T as core::convert::From>"): return [(st, a)]
    return None
@m("alloc::sync::Arc::new", "alloc::rcs::arc::Arc::new", "alloc::rc::Rc::new", "alloc::rcs::rc::Rc::new")
def _(c, st, a): return [(st, Obj("arc", a))]
@m("alloc::boxed::Box::new")
def _(c, st, a): return [(st, Obj("box", a))]

# ------------------------------------------------------------------ Option / Result
def opt_cases(c, st, o):
    """Option value -> [(st, payload | None)]"""
    I = c.I
    if isinstance(o, Agg): return [(st, o.f[0] if o.var == 1 else None)]
    out = []
    for s, dv in I.discr(st, o, o.ty):
        if dv.c == 0: out.append((s, None))
        else: out.append((s, I.mkval((o.key, "f", 1, 0), I.ty(o.ty)["variants"][1]["fields"][0]["ty"])))
    return out
def res_cases(c, st, o):
    """-> [(st, 'ok'|'err', payload)]"""
    I = c.I
    if isinstance(o, Agg): return [(st, "ok" if o.var == 0 else "err", o.f[0])]
    out = []
    for s, dv in I.discr(st, o, o.ty):
        v = dv.c
        out.append((s, "ok" if v == 0 else "err", I.mkval((o.key, "f", v, 0), I.ty(o.ty)["variants"][v]["fields"][0]["ty"])))
    return out
@m("core::option::Option::unwrap", "core::option::Option::expect")
def _(c, st, o, *a):
    out = []
    for s, v in opt_cases(c, st, o):
        if v is None: c.ok("unwrap on None", False, s)
        else: c.ok("unwrap on None", True); out.append((s, v))
    return out
@m("core::result::Result::unwrap", "core::result::Result::expect")
def _(c, st, o, *a):
    out = []
    src = repr(o)
    for s, k, v in res_cases(c, st, o):
        if k == "err": c.ok("unwrap on Err", False, s, src)
        else: c.ok("unwrap on Err", True); out.append((s, v))
    return out
@m("core::option::Option::take")
def _(c, st, a):
    loc, path = target(c.I, st, a); old = c.I.rd(st, loc, path); c.I.wr(st, loc, path, none(c.dty)); return [(st, old)]
@m("core::option::Option::replace")
def _(c, st, a, v):
    loc, path = target(c.I, st, a); old = c.I.rd(st, loc, path); c.I.wr(st, loc, path, some(c.dty, v)); return [(st, old)]
@m("core::option::Option::insert", "core::option::Option::get_or_insert")
def _(c, st, a, v):
    loc, path = target(c.I, st, a)
    old = c.I.rd(st, loc, path)
    if c.path.endswith("get_or_insert"): return None
    c.I.wr(st, loc, path, Agg(getattr(old, "ty", None), 1, (v,))); return [(st, MRef(loc, path + (("vf", 1, 0),)))]
@m("core::option::Option::as_ref", "core::option::Option::as_deref")
def _(c, st, a):
    o = peel(c.I, st, a); out = []
    for s, v in opt_cases(c, st, o):
        if v is None: out.append((s, none(c.dty)))
        else:
            if c.path.endswith("as_deref") and isinstance(v, Obj): v = v.f[0]
            out.append((s, some(c.dty, VRef(v))))
    return out
@m("core::option::Option::as_mut")
def _(c, st, a):
    loc, path = target(c.I, st, a); o = c.I.rd(st, loc, path); out = []
    for s, v in opt_cases(c, st, o):
        if v is None: out.append((s, none(c.dty)))
        else:
            if isinstance(o, Sym): c.I.wr(s, loc, path, Agg(o.ty, 1, (v,)))
            out.append((s, some(c.dty, MRef(loc, path + (("vf", 1, 0),)))))
    return out
@m("core::option::Option::is_some", "core::option::Option::is_none")
def _(c, st, a):
    o = peel(c.I, st, a)
    return [(s, (v is not None) == c.path.endswith("is_some")) for s, v in opt_cases(c, st, o)]
@m("core::option::Option::copied", "core::option::Option::cloned")
def _(c, st, o):
    out = []
    for s, v in opt_cases(c, st, o): out.append((s, none(c.dty) if v is None else some(c.dty, peel(c.I, s, v))))
    return out
@m("core::option::Option::into_iter", "core::option::Option::iter")
def _(c, st, o):
    o = peel(c.I, st, o) if c.path.endswith("::iter") else o
    return [(s, Obj("optit", v, c.path.endswith("::iter"))) for s, v in opt_cases(c, st, o)]

# ------------------------------------------------------------------ closures called through traits
@tm("FnOnce", "call_once")
def _(c, st, f, a): return c.I.call_value(st, f, c.I.untuple(a), c.d, c.t, c.fn)
TRAITS[("FnMut", "call_mut")] = TRAITS[("FnOnce", "call_once")]
TRAITS[("Fn", "call")] = TRAITS[("FnOnce", "call_once")]

# ------------------------------------------------------------------ panics
def panic_model(c, st, *a):
    c.ok("panic " + c.path.split("::")[-1], False, st, c.path)
    return []
for n in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_explicit", "core::panicking::panic_nounwind", "core::panicking::assert_failed",
          "core::panicking::panic_display", "core::panicking::panic_str_2015", "core::panicking::unreachable_display", "core::option::unwrap_failed", "core::option::expect_failed",
          "core::result::unwrap_failed", "std::rt::begin_panic", "core::panicking::panic_bounds_check", "std::rt::panic_fmt", "core::panicking::panic_const::panic_const_add_overflow"):
    MODELS[n] = panic_model
def exit_model(c, st, *a):
    st.event("exit", c.path); return []
MODELS["std::process::exit"] = exit_model
MODELS["std::process::abort"] = exit_model

# ------------------------------------------------------------------ fmt: opaque, effect free
def fmt_opaque(c, st, *a):
    return [(st, c.I.mkval(c.I.fresh("fmt"), c.dty))]
for n in ("core::fmt::Arguments::new", "core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::Arguments::new_v1", "core::fmt::Arguments::new_const",
          "core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst", "alloc::fmt::format", "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::none", "core::fmt::rt::Argument::from_usize"):
    MODELS[n] = fmt_opaque
@m("std::io::stdio::_print", "std::io::stdio::_eprint")
def _(c, st, *a):
    st.event("print", c.path.split("_")[-1]); return [(st, UNIT)]
@m("core::hint::must_use", "core::hint::black_box", "core::convert::identity")
def _(c, st, a): return [(st, a)]
@m("core::hint::spin_loop", "std::thread::yield_now", "std::thread::sleep")
def _(c, st, *a): return [(st, UNIT)]
@m("core::intrinsics::cold_path", "core::intrinsics::assume")
def _(c, st, *a): return [(st, UNIT)]

# ------------------------------------------------------------------ Vec / VecDeque / String / slices
def new_seq(c):
    I = c.I; p = I.adt_path(c.dty)
    if p == "alloc::string::String": return Seq("str", (), I.ty_id("char"))
    return Seq("vec", (), I.ty(c.dty)["args"][0])
VD = "alloc::collections::vec_deque::VecDeque"
@m("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "alloc::string::String::new", "alloc::string::String::with_capacity", VD + "::new", VD + "::with_capacity")
def _(c, st, *a): return [(st, new_seq(c))]
@m("alloc::vec::Vec::reserve", "alloc::string::String::reserve", "alloc::vec::Vec::shrink_to_fit", "alloc::string::String::shrink_to_fit", VD + "::reserve", VD + "::make_contiguous")
def _(c, st, a, *r):
    return [(st, UNIT if not c.path.endswith("make_contiguous") else a)]
@m("alloc::vec::Vec::len", "slice::len", VD + "::len")
def _(c, st, a): return [(st, c.I.seq_len(as_seq(c.I, st, a)))]
@m("alloc::string::String::len", "str::len")
def _(c, st, a): return [(st, c.I.seq_bytes(as_seq(c.I, st, a)))]
@m("alloc::vec::Vec::is_empty", "slice::is_empty", VD + "::is_empty", "alloc::string::String::is_empty", "str::is_empty")
def _(c, st, a):
    n = c.I.seq_len(as_seq(c.I, st, a))
    return [(st, n.c == 0 if n.is_const() else Pred("eq", n))]
@m("alloc::vec::Vec::push", VD + "::push_back", "alloc::string::String::push")
def _(c, st, a, v):
    loc, path = target(c.I, st, a); s = c.I.rd(st, loc, path)
    c.I.wr(st, loc, path, cat(c.I, st, s, [("el", v)])); return [(st, UNIT)]
@m(VD + "::push_front")
def _(c, st, a, v):
    loc, path = target(c.I, st, a); s = c.I.rd(st, loc, path)
    c.I.wr(st, loc, path, Seq(s.kind, c.I.norm_segs(st, (("el", v),) + s.segs), s.ety)); return [(st, UNIT)]
@m("alloc::string::String::push_str", "alloc::vec::Vec::extend_from_slice")
def _(c, st, a, v):
    loc, path = target(c.I, st, a); s = c.I.rd(st, loc, path)
    c.I.wr(st, loc, path, cat(c.I, st, s, as_seq(c.I, st, v).segs)); return [(st, UNIT)]
@m("alloc::vec::Vec::append", VD + "::append")
def _(c, st, a, b):
    loc, path = target(c.I, st, a); s = c.I.rd(st, loc, path)
    lb, pb = target(c.I, st, b); o = c.I.rd(st, lb, pb)
    c.I.wr(st, loc, path, cat(c.I, st, s, o.segs)); c.I.wr(st, lb, pb, Seq(o.kind, (), o.ety)); return [(st, UNIT)]
@m("alloc::vec::Vec::clear", VD + "::clear", "alloc::string::String::clear")
def _(c, st, a):
    loc, path = target(c.I, st, a); s = c.I.rd(st, loc, path)
    c.I.wr(st, loc, path, Seq(s.kind, (), s.ety)); return [(st, UNIT)]
@m("alloc::vec::Vec::insert", VD + "::insert")
def _(c, st, a, i, v):
    I = c.I; loc, path = target(I, st, a); s = I.rd(st, loc, path); n = I.seq_len(s)
    good = st.entails_le(i - n) and st.entails_le(-i)
    c.ok("insert index", good, st, f"{i} > len {n}")
    if not good and not (st.add_le(i - n) and st.add_le(-i)): return []
    out = []
    for s2, l, r in I.seq_split(st, s, i):
        s2 = s2.copy(); I.wr(s2, loc, path, Seq(s.kind, I.norm_segs(s2, l + (("el", v),) + r), s.ety)); out.append((s2, UNIT))
    return out
@m("alloc::vec::Vec::remove", VD + "::remove", "alloc::vec::Vec::swap_remove")
def _(c, st, a, i):
    I = c.I; loc, path = target(I, st, a); s = I.rd(st, loc, path); n = I.seq_len(s)
    if c.path.endswith("swap_remove"):
        if not st.entails_eq(i - n + 1): return None
    opt = c.path.startswith(VD)
    outs = []
    if opt:
        x = st.copy()
        if x.add_le(n - i): outs.append((x, none(c.dty)))
    else:
        good = st.entails_le(i - n + 1) and st.entails_le(-i)
        c.ok("remove index", good, st, f"{i} >= len {n}")
    st = st.copy()
    if not (st.add_le(i - n + 1) and st.add_le(-i)): return outs
    for s2, l, r in I.seq_split(st, s, i):
        for s3, e, r2 in I.seq_split(s2, Seq(s.kind, r, s.ety), ONE):
            for s4, v in I.seq_get(s3, Seq(s.kind, e, s.ety), ZERO):
                s4 = s4.copy(); I.wr(s4, loc, path, Seq(s.kind, I.norm_segs(s4, l + r2), s.ety))
                outs.append((s4, some(c.dty, v) if opt else v))
    return outs
@m("alloc::vec::Vec::pop", VD + "::pop_back", VD + "::pop_front", "alloc::string::String::pop")
def _(c, st, a):
    I = c.I; loc, path = target(I, st, a); s = I.rd(st, loc, path); n = I.seq_len(s); out = []
    e = st.copy()
    if e.add_eq(n): out.append((e, none(c.dty)))
    x = st.copy()
    if x.add_le(-n + 1):
        front = c.path.endswith("pop_front")
        for s2, l, r in I.seq_split(x, s, ONE if front else n - 1):
            one, rest = (l, r) if front else (r, l)
            for s3, v in I.seq_get(s2, Seq(s.kind, one, s.ety), ZERO):
                s3 = s3.copy(); I.wr(s3, loc, path, Seq(s.kind, I.norm_segs(s3, rest), s.ety)); out.append((s3, some(c.dty, v)))
    return out
@m("alloc::vec::Vec::truncate", VD + "::truncate")
def _(c, st, a, k):
    I = c.I; loc, path = target(I, st, a); s = I.rd(st, loc, path); n = I.seq_len(s); out = []
    x = st.copy()
    if x.add_le(n - k): out.append((x, UNIT))
    y = st.copy()
    if y.add_le(k - n + 1):
        for s2, l, r in I.seq_split(y, s, k):
            s2 = s2.copy(); I.wr(s2, loc, path, Seq(s.kind, I.norm_segs(s2, l), s.ety)); out.append((s2, UNIT))
    return out
@m("alloc::string::String::truncate")
def _(c, st, a, k):
    I = c.I; loc, path = target(I, st, a); s = I.rd(st, loc, path)
    ck = I.byte_to_char(st, s, k)
    c.ok("str char boundary", ck is not None, st)
    if ck is None: I.havoc(st, a); return [(st, UNIT)]
    out = []
    for s2, l, r in I.seq_split(st, s, ck):
        s2 = s2.copy(); I.wr(s2, loc, path, Seq(s.kind, I.norm_segs(s2, l), s.ety)); out.append((s2, UNIT))
    return out
@m("alloc::vec::Vec::split_off", VD + "::split_off")
def _(c, st, a, k):
    I = c.I; loc, path = target(I, st, a); s = I.rd(st, loc, path); n = I.seq_len(s)
    good = st.entails_le(k - n); c.ok("split_off index", good, st)
    st = st.copy()
    if not st.add_le(k - n): return []
    out = []
    for s2, l, r in I.seq_split(st, s, k):
        s2 = s2.copy(); I.wr(s2, loc, path, Seq(s.kind, I.norm_segs(s2, l), s.ety)); out.append((s2, Seq(s.kind, I.norm_segs(s2, r), s.ety)))
    return out
@m("alloc::vec::Vec::drain", VD + "::drain")
def _(c, st, a, r):
    I = c.I; loc, path = target(I, st, a); s = I.rd(st, loc, path); n = I.seq_len(s)
    ab = rng(I, st, r, n)
    if ab is None: return None
    lo, hi = ab
    good = st.entails_le(lo - hi) and st.entails_le(hi - n); c.ok("drain range", good, st)
    st = st.copy()
    if not (st.add_le(lo - hi) and st.add_le(hi - n)): return []
    out = []
    for s2, l, rr in I.seq_split(st, s, lo):
        for s3, mid, rest in I.seq_split(s2, Seq(s.kind, rr, s.ety), hi - lo):
            s3 = s3.copy(); I.wr(s3, loc, path, Seq(s.kind, I.norm_segs(s3, l + rest), s.ety))
            q = Seq(s.kind, I.norm_segs(s3, mid), s.ety)
            out.append((s3, Obj("it", q, ZERO, I.seq_len(q), "val")))
    return out
@m("alloc::vec::Vec::splice")
def _(c, st, a, r, it):
    # what goes in is put in when the Splice is dropped; it borrows the vector until then, so nobody can tell
    I = c.I; loc, path = target(I, st, a); s = I.rd(st, loc, path); n = I.seq_len(s)
    ab = rng(I, st, r, n); i = to_iter(c, st, it)
    if ab is None or i is None: return None
    lo, hi = ab
    good = st.entails_le(lo - hi) and st.entails_le(hi - n); c.ok("splice range", good, st)
    st = st.copy()
    if not (st.add_le(lo - hi) and st.add_le(hi - n)): return []
    out = []
    for s2, l, rr in I.seq_split(st, s, lo):
        for s3, mid, rest in I.seq_split(s2, Seq(s.kind, rr, s.ety), hi - lo):
            for s4, q in collect_into(c, s3, i, Seq(s.kind, I.norm_segs(s3, l), s.ety)):
                s4 = s4.copy(); I.wr(s4, loc, path, cat(I, s4, q, rest))
                out.append((s4, Obj("it", Seq(s.kind, I.norm_segs(s4, mid), s.ety), ZERO, hi - lo, "val")))
    return out
@m("slice::reverse", "slice::sort", "slice::sort_unstable", "slice::sort_by", "slice::sort_unstable_by", "slice::sort_by_key", "alloc::vec::Vec::retain", "alloc::vec::Vec::dedup", VD + "::retain",
   "slice::fill", "alloc::vec::Vec::dedup_by", "alloc::vec::Vec::dedup_by_key", "slice::sort_unstable_by_key", "alloc::string::String::retain")
def _(c, st, a, *r):
    I = c.I; loc, path = target(I, st, a); s = I.rd(st, loc, path); n = I.seq_len(s)
    nm = c.path.split("::")[-1]
    key = I.fresh(nm); base = ("c", key); I.base_ety[base] = s.ety
    nn = Lin.atom(("n", base))
    st = st.copy()
    I.wr(st, loc, path, Seq(s.kind, [("run", base, ZERO, nn)], s.ety))
    if nm in ("retain", "dedup", "dedup_by", "dedup_by_key"): st.add_le(nn - n)
    else: st.add_eq(nn - n)
    st.event("reorder", nm, s)
    return [(st, UNIT)]
@m("slice::rotate_left", "slice::rotate_right", VD + "::rotate_left", VD + "::rotate_right")
def _(c, st, a, k):
    I = c.I; loc, path = target(I, st, a); s = I.rd(st, loc, path); n = I.seq_len(s)
    c.ok("rotate bound", st.entails_le(k - n), st)
    st = st.copy()
    if not st.add_le(k - n): return []
    out = []
    for s2, l, r in I.seq_split(st, s, k if c.path.endswith("left") else n - k):
        s2 = s2.copy(); I.wr(s2, loc, path, Seq(s.kind, I.norm_segs(s2, r + l), s.ety)); out.append((s2, UNIT))
    return out
@m("slice::swap", VD + "::swap")
def _(c, st, a, i, j):
    I = c.I; loc, path = target(I, st, a); s = I.rd(st, loc, path); n = I.seq_len(s)
    c.ok("index", st.entails_le(i - n + 1) and st.entails_le(j - n + 1), st)
    st = st.copy()
    if not (st.add_le(i - n + 1) and st.add_le(j - n + 1)): return []
    out = []
    for s1, x in I.seq_get(st, s, i):
        for s2, y in I.seq_get(s1, s, j):
            s2 = s2.copy(); q = I.seq_set(s2, s, i, y); q = I.seq_set(s2, q, j, x)
            I.wr(s2, loc, path, q); out.append((s2, UNIT))
    return out
@m("alloc::vec::Vec::get", "slice::get", VD + "::get", "slice::get_mut", VD + "::get_mut")
def _(c, st, a, i):
    I = c.I
    mut = c.path.endswith("_mut")
    if mut:
        loc, path = target(I, st, a); s = as_seq(I, st, I.rd(st, loc, path))
    else: s = as_seq(I, st, a)
    n = I.seq_len(s); out = []
    if not isinstance(i, Lin):
        ab = rng(I, st, i, n)
        if ab is None or mut: return None
        lo, hi = ab; x = st.copy()
        if x.add_le(lo - hi) and x.add_le(hi - n):
            for s2, q in I.seq_slice(x, s, lo, hi): out.append((s2, some(c.dty, VRef(q))))
        for e in (lo - hi, hi - n):
            y = st.copy()
            if y.add_le(-e + 1): out.append((y, none(c.dty)))
        return out
    x = st.copy()
    if x.add_le(i - n + 1):
        if mut: out.append((x, some(c.dty, MRef(loc, path + (("idx", i),)))))
        else:
            for s2, v in I.seq_get(x, s, i): out.append((s2, some(c.dty, VRef(v))))
    y = st.copy()
    if y.add_le(n - i): out.append((y, none(c.dty)))
    return out
@m("slice::first", "slice::last", VD + "::front", VD + "::back", "slice::last_mut", "slice::first_mut")
def _(c, st, a):
    I = c.I; mut = c.path.endswith("_mut")
    s = as_seq(I, st, a); n = I.seq_len(s); out = []
    i = ZERO if ("first" in c.path or "front" in c.path) else n - 1
    x = st.copy()
    if x.add_le(-n + 1):
        if mut:
            loc, path = target(I, st, a); out.append((x, some(c.dty, MRef(loc, path + (("idx", i),)))))
        else:
            for s2, v in I.seq_get(x, s, i): out.append((s2, some(c.dty, VRef(v))))
    y = st.copy()
    if y.add_eq(n): out.append((y, none(c.dty)))
    return out
@m("slice::split_at")
def _(c, st, a, k):
    I = c.I; s = as_seq(I, st, a); n = I.seq_len(s)
    c.ok("split_at", st.entails_le(k - n), st); st = st.copy()
    if not st.add_le(k - n): return []
    return [(s2, Agg(c.dty, None, (VRef(Seq(s.kind, I.norm_segs(s2, l), s.ety)), VRef(Seq(s.kind, I.norm_segs(s2, r), s.ety))))) for s2, l, r in I.seq_split(st, s, k)]
@m("slice::contains")
def _(c, st, a, v):
    s = as_seq(c.I, st, a); v = peel(c.I, st, v)
    if s.segs and all(x[0] == "el" and isinstance(x[1], Lin) and x[1].is_const() for x in s.segs):
        r = in_set(c.I, st, v, [x[1].c for x in s.segs])
        if r is not None: return r
    return [(st, Pred("atom", ("contains", s, v)))]
@tm("Index", "index")
def _(c, st, a, i):
    I = c.I; v = peel(I, st, a)
    if isinstance(v, Agg) and not (v.ty is not None and I.ty(v.ty)["k"] == "array"): return None
    if isinstance(v, Sym): return None
    s = as_seq(I, st, a)
    i = peel(I, st, i)
    if isinstance(i, Lin):
        if is_str(s): return None
        n = I.seq_len(s)
        good = st.entails_le(i - n + 1) and st.entails_le(-i); c.ok("index", good, st, f"{i} >= len {n}")
        st = st.copy()
        if not st.add_le(i - n + 1): return []
        return [(s2, VRef(x)) for s2, x in I.seq_get(st, s, i)]
    if isinstance(i, Sym) and I.ty(i.ty)["k"] == "param" or (isinstance(i, Sym) and rng(I, st, i, ZERO) is None):
        # opaque range parameter
        return [(st, VRef(I.mkseq(s.kind, ("slice", s, i.key), s.ety)))]
    f = str_range if is_str(s) else vec_range
    return [(s2, VRef(q)) for s2, q in f(c, st, s, i)]
@tm("IndexMut", "index_mut")
def _(c, st, a, i):
    I = c.I
    if not isinstance(i, Lin): return None
    loc, path = target(I, st, a); s = I.rd(st, loc, path)
    if not isinstance(s, Seq): return None
    n = I.seq_len(s)
    good = st.entails_le(i - n + 1) and st.entails_le(-i); c.ok("index", good, st, f"{i} >= len {n}")
    st = st.copy()
    if not st.add_le(i - n + 1): return []
    return [(st, MRef(loc, path + (("idx", i),)))]

# ------------------------------------------------------------------ str
def char_pred(c, st, pat, ch):
    """Does char value ch match the pattern value? -> [(st, bool|Pred)] or None"""
    I = c.I; p = peel(I, st, pat)
    if isinstance(p, Seq):      # set of chars (slice / array pattern), or a str with one char
        if p.kind == "str":
            return None
        cs = []
        for x in p.segs:
            if x[0] != "el" or not (isinstance(x[1], Lin) and x[1].is_const()): return None
            cs.append(x[1].c)
        return in_set(I, st, ch, cs)
    if isinstance(p, Lin) and p.is_const(): return in_set(I, st, ch, [p.c])
    if isinstance(p, Sym) and I.ty(p.ty)["k"] == "char": return I.eq(st, p, ch) or [(st, Pred("atom", ("eq", p, ch)))]
    if isinstance(p, Agg) and p.ty is not None and I.ty(p.ty)["k"] == "array":
        return in_set(I, st, ch, [x.c for x in p.f])
    if isinstance(p, (FnV,)) or (isinstance(p, Agg) and I.ty(p.ty)["k"] == "closure"):
        return [(s, r) for s, _, r in I.call_any_val(st, p, [ch], c.d, c.t, c.fn)]
    return None
def in_set(I, st, ch, cs):
    if isinstance(ch, Lin) and ch.is_const(): return [(st, ch.c in cs)]
    if isinstance(ch, Sym): return [(st, Pred("in", (ch.key, frozenset(cs))))]
    return None
@m("str::contains")
def _(c, st, a, pat):
    I = c.I; s = as_seq(I, st, a); p = peel(I, st, pat)
    chars = [x[1].c for x in s.segs if x[0] == "el" and isinstance(x[1], Lin) and x[1].is_const()]
    if len(chars) == len(s.segs):
        if isinstance(p, (Sym, Lin)) and I.as_lin(p) is not None: return in_set(I, st, p, chars)
    return [(st, Pred("atom", ("str_contains", s, p if isinstance(p, V) else repr(p))))]
@m("str::starts_with", "str::ends_with", "str::eq_ignore_ascii_case")
def _(c, st, a, pat):
    return [(st, Pred("atom", (c.path, as_seq(c.I, st, a), peel(c.I, st, pat))))]
@m("str::chars", "str::char_indices")
def _(c, st, a):
    s = as_seq(c.I, st, a)
    return [(st, Obj("it", s, ZERO, c.I.seq_len(s), "char" if c.path.endswith("chars") else "charidx"))]
@m("str::is_char_boundary")
def _(c, st, a, i):
    s = as_seq(c.I, st, a)
    r = c.I.byte_to_char(st, s, i)
    if r is not None and st.entails_le(r - c.I.seq_len(s)): return [(st, True)]
    return [(st, Pred("atom", ("boundary", s, i)))]
@m("str::get")
def _(c, st, a, r):
    I = c.I; s = as_seq(I, st, a); ab = rng(I, st, r, I.seq_bytes(s))
    if ab is None: return None
    ca, cb = I.byte_to_char(st, s, ab[0]), I.byte_to_char(st, s, ab[1])
    if ca is None or cb is None: return None
    out = []; n = I.seq_len(s); x = st.copy()
    if x.add_le(ca - cb) and x.add_le(cb - n):
        for s2, q in I.seq_slice(x, s, ca, cb): out.append((s2, some(c.dty, VRef(q))))
    for e in (ca - cb, cb - n):
        y = st.copy()
        if y.add_le(-e + 1): out.append((y, none(c.dty)))
    return out
@m("str::rfind", "str::find")
def _(c, st, a, pat):
    """Position of the last/first char matching a char pattern; records that no other char beyond matches."""
    I = c.I; s = as_seq(I, st, a)
    if len(s.segs) > 1: return None
    rev = c.path.endswith("rfind")
    if not s.segs: return [(st, none(c.dty))]
    _, base, lo, hi = s.segs[0] if s.segs[0][0] == "run" else (None, None, None, None)
    if base is None: return None
    p = peel(I, st, pat)
    key = I.fresh("found")
    k = Lin.atom(("v", key)); out = []
    x = st.copy()
    x.cons = x.cons + (lo - k, k - hi + 1)
    if not x.infeasible([lo - k]):
        r = char_pred(c, x, pat, I.elem(base, k, s.ety))
        if r is None: return None
        for s2, v in r:
            for s3 in s2.copy().assume(v, True):
                s3.event("none-match", base, (k + 1) if rev else lo, hi if rev else k, repr(p))
                out.append((s3, some(c.dty, U(base, k) - U(base, lo))))
    y = st.copy(); y.event("none-match", base, lo, hi, repr(p))
    out.append((y, none(c.dty)))
    return out
@m("str::as_bytes", "alloc::string::String::as_bytes", "str::trim", "str::trim_start", "str::trim_end", "str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::replace", "str::repeat",
   "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::split_whitespace", "str::lines", "str::bytes", "str::split", "str::rsplit", "str::splitn", "str::rsplitn", "str::parse")
def _(c, st, a, *r):
    I = c.I; v = peel(I, st, a)
    return [(st, I.mkval((c.path, v, tuple(peel(I, st, x) if not isinstance(x, Agg) else repr(x) for x in r)), c.dty))]
@m("alloc::string::String::insert", "alloc::string::String::insert_str", "alloc::string::String::remove")
def _(c, st, a, i, *v):
    I = c.I; loc, path = target(I, st, a); s = I.rd(st, loc, path)
    ck = I.byte_to_char(st, s, i)
    c.ok("str char boundary", ck is not None, st)
    if ck is None: return None
    n = I.seq_len(s)
    rem = c.path.endswith("remove")
    lim = ck - n + (1 if rem else 0)
    c.ok("string index", st.entails_le(lim), st); st = st.copy()
    if not st.add_le(lim): return []
    out = []
    for s2, l, r in I.seq_split(st, s, ck):
        if rem:
            for s3, e, r2 in I.seq_split(s2, Seq(s.kind, r, s.ety), ONE):
                for s4, x in I.seq_get(s3, Seq(s.kind, e, s.ety), ZERO):
                    s4 = s4.copy(); I.wr(s4, loc, path, Seq(s.kind, I.norm_segs(s4, l + r2), s.ety)); out.append((s4, x))
        else:
            mid = (("el", v[0]),) if c.path.endswith("insert") else as_seq(I, s2, v[0]).segs
            s2 = s2.copy(); I.wr(s2, loc, path, Seq(s.kind, I.norm_segs(s2, l + mid + r), s.ety)); out.append((s2, UNIT))
    return out

# ------------------------------------------------------------------ char
@m("char::len_utf8")
def _(c, st, ch): return [(st, c.I.char_width(ch))]
def mk_pred(nm):
    def f(c, st, ch):
        ch = peel(c.I, st, ch)
        if isinstance(ch, Lin) and ch.is_const(): return [(st, CHARPRED[nm](chr(ch.c)))]
        if isinstance(ch, Sym): return [(st, Pred("atom", (nm, ch.key)))]
        return None
    return f
for _nm in CHARPRED: MODELS["char::" + _nm] = mk_pred(_nm)

# ------------------------------------------------------------------ iterators
def to_iter_any(c, st, v):
    r = to_iter(c, st, v)
    if r is None and isinstance(v, Agg) and v.var is not None and c.I.adt_path(v.ty) == "core::option::Option":
        r = Obj("optit", v.f[0] if v.f else None, False)
    if r is None: raise Imprecise(f"iterator over {v!r}")
    return r
ITER_TAGS = {"flat_map", "flatten", "it", "itm", "range", "rangei", "rev", "copied", "map", "filter", "filter_map", "take_while", "skip_while", "take", "skip", "enumerate", "zip", "chain", "peekable",
             "inspect", "once", "empty", "optit", "tryiter", "recviter", "map_while", "from_fn", "opaque", "cloned", "split", "scan"}

def to_iter(c, st, v):
    """IntoIterator::into_iter on a value."""
    I = c.I
    if isinstance(v, Obj) and v.tag in ITER_TAGS: return v
    if isinstance(v, Seq): return Obj("it", v, ZERO, I.seq_len(v), "val")
    if isinstance(v, VRef):
        x = v.v
        if isinstance(x, Seq) or (isinstance(x, Agg) and x.ty is not None and I.ty(x.ty)["k"] == "array"):
            s = as_seq(I, st, x); return Obj("it", s, ZERO, I.seq_len(s), "ref")
        if isinstance(x, Obj) and x.tag in ("arc", "box"): return to_iter(c, st, VRef(x.f[0]))
        if isinstance(x, (VRef, MRef)): return to_iter(c, st, x)
        if isinstance(x, Sym) and is_chan(I, x): return Obj("recviter", x)
        if isinstance(x, (Agg, Sym)) and I.adt_path(x.ty) == "core::option::Option": return None
    if isinstance(v, MRef):
        x = I.rd(st, v.loc, v.path)
        if isinstance(x, Obj) and x.tag in ITER_TAGS: return Obj("byref", v)
        if isinstance(x, Agg) and range_like(I, x): return Obj("byref", v)
        if isinstance(x, Seq):
            return Obj("itm", v.loc, v.path, ZERO, I.seq_len(x))
        if isinstance(x, (MRef, VRef)): return to_iter(c, st, x)
        if isinstance(x, Sym) and is_chan(I, x): return Obj("recviter", x)
    if isinstance(v, Agg):
        if range_like(I, v): return v
        if v.ty is not None and I.ty(v.ty)["k"] == "array":
            s = as_seq(I, st, v); return Obj("it", s, ZERO, I.seq_len(s), "val")
    if isinstance(v, Sym):
        if is_chan(I, v): return Obj("recviter", v)
        t = I.ty(v.ty)
        if t["k"] in ("param", "alias", "other") : return Obj("opaque", v)
        return None
    return None
def is_chan(I, v): return isinstance(v, Sym) and (I.adt_path(v.ty) or "").endswith("::Receiver")
def range_like(I, v): return isinstance(v, Agg) and I.adt_path(v.ty) in ("core::ops::range::Range", "core::ops::range::RangeInclusive", "core::ops::range::RangeFrom")

def it_next(c, st, it, back=False):
    """-> [(st, new iterator, item | None)]"""
    I = c.I
    if isinstance(it, Agg) and range_like(I, it):
        p = I.adt_path(it.ty); out = []
        if p.endswith("RangeFrom"):
            return [(st, Agg(it.ty, None, (it.f[0] + 1,)), it.f[0])]
        lo, hi = it.f[0], it.f[1]
        if p.endswith("RangeInclusive"):
            ex = it.f[2] if len(it.f) > 2 else False
            for s, e in st.split(ex):
                if e: out.append((s, it, None)); continue
                x = s.copy()
                if x.add_le(lo - hi + 1): out.append((x, Agg(it.ty, None, (lo, hi - 1, False) if back else (lo + 1, hi, False)), hi if back else lo))
                y = s.copy()
                if y.add_eq(lo - hi): out.append((y, Agg(it.ty, None, (lo, hi, True)), lo))
                z = s.copy()
                if z.add_le(hi - lo + 1): out.append((z, it, None))
            return out
        x = st.copy()
        if x.add_le(lo - hi + 1): out.append((x, Agg(it.ty, None, (lo, hi - 1) if back else (lo + 1, hi)), hi - 1 if back else lo))
        y = st.copy()
        if y.add_le(hi - lo): out.append((y, it, None))
        return out
    if isinstance(it, MRef):
        out = []
        cur = I.rd(st, it.loc, it.path)
        for s, n, v in it_next(c, st, cur, back):
            s = s.copy(); I.wr(s, it.loc, it.path, n); out.append((s, it, v))
        return out
    if isinstance(it, Sym): it = Obj("opaque", it)
    t = it.tag; f = it.f
    if t == "byref":
        return [(s, it, v) for s, _, v in it_next(c, st, f[0], back)]
    if t == "it":
        seq, lo, hi, mode = f; out = []
        x = st.copy()
        if x.add_le(lo - hi + 1):
            pos = hi - 1 if back else lo
            if mode in ("ref", "val", "char") and len(seq.segs) > 1 and not I.hooks_yield:
                # drop the segments that are already consumed
                cum = ZERO
                for j, sg in enumerate(seq.segs):
                    n = I.seg_len(sg); y = x.copy()
                    if y.add_le(cum - pos) and y.add_le(pos - cum - n + 1):
                        v = sg[1] if sg[0] == "el" else I.elem(sg[1], sg[2] + (pos - cum), seq.ety)
                        if back: new = Obj("it", Seq(seq.kind, seq.segs[:j + 1], seq.ety), lo, hi - 1, mode)
                        else: new = Obj("it", Seq(seq.kind, seq.segs[j:], seq.ety), lo - cum + 1, hi - cum, mode)
                        out.append((y, new, VRef(v) if mode == "ref" else v))
                    cum = cum + n
                e = st.copy()
                if e.add_le(hi - lo): out.append((e, it, None))
                return out
            for s2, v in I.seq_get(x, seq, pos):
                new = Obj("it", seq, lo, hi - 1, mode) if back else Obj("it", seq, lo + 1, hi, mode)
                item = v
                if mode == "ref": item = VRef(v)
                elif mode == "charidx":
                    off = prefix_bytes(I, s2, seq, pos)
                    item = Agg(None, None, (off, v))
                sts = [s2]
                for h in I.hooks_yield: sts = [z for y in sts for z in h(y, seq, pos, v, back)]
                for z in sts: out.append((z, new, item))
        y = st.copy()
        if y.add_le(hi - lo): out.append((y, it, None))
        return out
    if t == "itm":
        loc, path, lo, hi = f; out = []
        x = st.copy()
        if x.add_le(lo - hi + 1):
            pos = hi - 1 if back else lo
            out.append((x, Obj("itm", loc, path, lo, hi - 1) if back else Obj("itm", loc, path, lo + 1, hi), MRef(loc, path + (("idx", pos),))))
        y = st.copy()
        if y.add_le(hi - lo): out.append((y, it, None))
        return out
    if t == "rev": return [(s, Obj("rev", n), v) for s, n, v in it_next(c, st, f[0], not back)]
    if t in ("copied", "cloned"): return [(s, Obj(t, n), None if v is None else (v.v if isinstance(v, VRef) else peel(I, s, v))) for s, n, v in it_next(c, st, f[0], back)]
    if t == "map":
        out = []
        for s, n, v in it_next(c, st, f[0], back):
            if v is None: out.append((s, Obj("map", n, f[1]), None)); continue
            for s2, nf, r in I.call_any_val(s, f[1], [v], c.d, c.t, c.fn): out.append((s2, Obj("map", n, nf), r))
        return out
    if t == "inspect":
        out = []
        for s, n, v in it_next(c, st, f[0], back):
            if v is None: out.append((s, Obj("inspect", n, f[1]), None)); continue
            for s2, nf, r in I.call_any_val(s, f[1], [VRef(v)], c.d, c.t, c.fn): out.append((s2, Obj("inspect", n, nf), v))
        return out
    if t == "take_while":
        inner, fn, done = f; out = []
        if done: return [(st, it, None)]
        for s, n, v in it_next(c, st, inner, back):
            if v is None: out.append((s, Obj(t, n, fn, False), None)); continue
            for s2, nf, r in I.call_any_val(s, fn, [VRef(v)], c.d, c.t, c.fn):
                for s3, b in s2.split(r): out.append((s3, Obj(t, n, nf, not b), v if b else None))
        return out
    if t == "map_while":
        inner, fn = f; out = []
        for s, n, v in it_next(c, st, inner, back):
            if v is None: out.append((s, Obj(t, n, fn), None)); continue
            for s2, nf, r in I.call_any_val(s, fn, [v], c.d, c.t, c.fn):
                for s3, p in opt_cases(c, s2, r): out.append((s3, Obj(t, n, nf), p))
        return out
    if t == "scan":
        inner, acc, fn = f; out = []
        if back: raise Imprecise("scan back")
        I.cn += 1; loc = ("H", ("scan", c.d, I.cn))
        for s, n, v in it_next(c, st, inner):
            if v is None: out.append((s, Obj(t, n, acc, fn), None)); continue
            s = s.copy(); s.mem[loc] = acc
            for s2, nf, r in I.call_any_val(s, fn, [MRef(loc, ()), v], c.d, c.t, c.fn):
                for s3, p in opt_cases(c, s2, r):
                    s3 = s3.copy(); na = s3.mem.pop(loc); out.append((s3, Obj(t, n, na, nf), p))
        I.cn -= 1
        return out
    if t in ("filter", "filter_map", "skip_while"):
        return search(c, st, it, back)
    if t == "take":
        inner, n = f; out = []
        if back: raise Imprecise("take back")
        x = st.copy()
        if x.add_le(-n + 1):
            for s, ni, v in it_next(c, x, inner): out.append((s, Obj(t, ni, n - 1), v))
        y = st.copy()
        if y.add_le(n): out.append((y, it, None))
        return out
    if t == "skip":
        inner, n = f
        if back: raise Imprecise("skip back")
        if inner.tag == "it":
            seq, lo, hi, mode = inner.f; out = []
            x = st.copy()
            if x.add_le(lo + n - hi): out += it_next(c, x, Obj("it", seq, lo + n, hi, mode))
            y = st.copy()
            if y.add_le(hi - lo - n + 1): out.append((y, Obj("it", seq, hi, hi, mode), None))
            return out
        raise Imprecise("skip")
    if t == "enumerate":
        inner, n = f
        if back: raise Imprecise("enumerate back")
        return [(s, Obj(t, ni, n if v is None else n + 1), None if v is None else Agg(None, None, (n, v))) for s, ni, v in it_next(c, st, inner)]
    if t == "zip":
        a, b = f; out = []
        for s, na, va in it_next(c, st, a, back):
            if va is None: out.append((s, Obj(t, na, b), None)); continue
            for s2, nb, vb in it_next(c, s, b, back):
                out.append((s2, Obj(t, na, nb), None if vb is None else Agg(None, None, (va, vb))))
        return out
    if t == "chain":
        a, b, adone = f; out = []
        if back: raise Imprecise("chain back")
        if adone: return [(s, Obj(t, a, nb, True), v) for s, nb, v in it_next(c, st, b)]
        for s, na, v in it_next(c, st, a):
            if v is not None: out.append((s, Obj(t, na, b, False), v))
            else: out += [(s2, Obj(t, na, nb, True), v2) for s2, nb, v2 in it_next(c, s, b)]
        return out
    if t == "peekable":
        inner, pk = f
        if pk is not None: return [(st, Obj(t, inner, None), pk.f[0] if pk.f else None)]
        return [(s, Obj(t, n, None), v) for s, n, v in it_next(c, st, inner, back)]
    if t == "once": return [(st, Obj("empty"), f[0])]
    if t == "empty": return [(st, it, None)]
    if t == "optit":
        v, ref = f
        return [(st, Obj("empty"), None if v is None else (VRef(v) if ref else v))]
    if t in ("tryiter", "recviter") and I.chan is not None:
        return [(waited(s, v), it, v) for s, v in I.chan.recv(c, st, f[0], "try_recv" if t == "tryiter" else "recv")]
    if t in ("flat_map", "flatten"):
        # f = (outer, fn | None, current inner | None)
        outer, fn, cur = f
        out = []
        def pull(s, outer, fn, n):
            if n > 3: raise Imprecise("flat_map over possibly empty items")
            for s2, no, v in it_next(c, s, outer):
                if v is None: out.append((s2, Obj(t, no, fn, None), None)); continue
                for s3, nf, r in (I.call_any_val(s2, fn, [v], c.d, c.t, c.fn) if t == "flat_map" else [(s2, fn, v)]):
                    inner(s3, no, nf, to_iter_any(c, s3, r), n + 1)
        def inner(s, outer, fn, cur, n):
            for s2, nc, v in it_next(c, s, cur):
                if v is not None: out.append((s2, Obj(t, outer, fn, nc), v))
                else: pull(s2, outer, fn, n)
        if cur is None: pull(st, outer, fn, 0)
        else: inner(st, outer, fn, cur, 0)
        return out
    if t in ("tryiter", "recviter"):
        out = []
        s = st.copy()
        msg = I.mkval(I.fresh("msg"), I.ty(f[0].ty)["args"][0])
        s.event("recv" if t == "recviter" else "try_recv", f[0], msg)
        out.append((s, it, msg))
        e = st.copy(); e.event("recv-end" if t == "recviter" else "try_recv-empty", f[0]); out.append((e, it, None))
        return out
    if t == "opaque":
        ity = None
        s = st.copy()
        item = Sym(I.fresh("item"), None)
        s.event("yield", f[0], item)
        return [(s, it, item), (st.copy(), it, None)]
    raise Imprecise(f"iterator {t}")

def prefix_bytes(I, st, seq, pos):
    cumc = ZERO; cumb = ZERO
    for x in seq.segs:
        n = I.seg_len(x)
        if cumc == pos or st.entails_eq(cumc - pos): return cumb
        if x[0] == "run" and st.entails_le(cumc - pos) and st.entails_le(pos - cumc - n):
            return cumb + U(x[1], x[2] + pos - cumc) - U(x[1], x[2])
        cumc = cumc + n; cumb = cumb + I.seg_bytes(x)
    if cumc == pos or st.entails_eq(cumc - pos): return cumb
    raise Imprecise("byte offset")

def search(c, st, it, back):
    """next() of filter-like adaptors: a loop over the inner iterator."""
    I = c.I; t = it.tag
    if t == "skip_while" and it.f[2]:
        return [(s, Obj(t, n, it.f[1], True), v) for s, n, v in it_next(c, st, it.f[0], back)]
    I.cn += 1; loc = ("H", ("srch", c.d, I.cn))
    st = st.copy(); st.mem[loc] = it
    def step(s):
        cur = s.mem[loc]; out = []
        for s2, n, v in it_next(c, s, cur.f[0], back):
            s2 = s2.copy()
            if v is None:
                s2.mem[loc] = Obj(t, n, *cur.f[1:]); out.append((s2, "exit", None)); continue
            arg = v if t == "filter_map" else VRef(v)
            for s3, nf, r in I.call_any_val(s2, cur.f[1], [arg], c.d, c.t, c.fn):
                if t == "filter_map":
                    for s4, p in opt_cases(c, s3, r):
                        s4 = s4.copy(); s4.mem[loc] = Obj(t, n, nf)
                        out.append((s4, "back" if p is None else "exit", p))
                else:
                    for s4, b in s3.split(r):
                        s4 = s4.copy()
                        if t == "filter":
                            s4.mem[loc] = Obj(t, n, nf); out.append((s4, "exit" if b else "back", v))
                        else:
                            s4.mem[loc] = Obj(t, n, nf, not b); out.append((s4, "back" if b else "exit", v))
        return out
    res = I.fixloop(st, step, ("search", c.fn.path if c.fn else "", tuple(I.chain), c.d, I.cn), lambda s: None)
    out = []
    for s, k, x in res:
        n = s.mem.pop(loc); out.append((s, n, x))
    I.cn -= 1
    return out

def waited(s, v, op=""):
    """Something was waited for: a loop around it need not end by itself."""
    if v is not None or op == "recv_timeout": s = s.copy(); s.event("wait")
    return s

def consume(c, st, it, acc, body, name):
    """Loop over an iterator. body(s, item) -> [(s, 'back'|'exit', value)]; the accumulator lives at
    accloc; -> [(st, final acc, exit value | None, iterator)]"""
    I = c.I; I.cn += 1
    li = ("H", ("ci", c.d, I.cn)); la = ("H", ("ca", c.d, I.cn))
    st = st.copy(); st.mem[li] = it; st.mem[la] = acc
    def step(s):
        out = []
        for s2, n, v in it_next(c, s, s.mem[li]):
            s2 = s2.copy(); s2.mem[li] = n
            if v is None: out.append((s2, "exit", None)); continue
            out += body(s2, la, v)
        return out
    res = I.fixloop(st, step, (name, c.fn.path if c.fn else "", tuple(I.chain), c.d, I.cn), lambda s: None)
    out = []
    for s, k, x in res:
        n = s.mem.pop(li); a = s.mem.pop(la); out.append((s, a, x, n))
    I.cn -= 1
    return out

@tm("IntoIterator", "into_iter")
def _(c, st, v):
    if c.f.get("local"): return None
    r = to_iter(c, st, v)
    if r is not None: return [(st, r)]
    if isinstance(v, (Agg, Sym)) and c.I.adt_path(v.ty) == "core::option::Option":
        return [(s, Obj("optit", x, False)) for s, x in opt_cases(c, st, v)]
    return None
@m("slice::iter", "alloc::vec::Vec::iter", VD + "::iter")
def _(c, st, a):
    s = as_seq(c.I, st, a); return [(st, Obj("it", s, ZERO, c.I.seq_len(s), "ref"))]
@m("slice::iter_mut", VD + "::iter_mut")
def _(c, st, a):
    loc, path = target(c.I, st, a); s = c.I.rd(st, loc, path)
    if not isinstance(s, Seq): return None
    return [(st, Obj("itm", loc, path, ZERO, c.I.seq_len(s)))]
def own_iter(c, st, v):
    if isinstance(v, Obj) and (v.tag in ITER_TAGS or v.tag == "byref"): return v
    if isinstance(v, Agg) and range_like(c.I, v): return v
    if isinstance(v, MRef):
        x = c.I.rd(st, v.loc, v.path)
        if isinstance(x, (MRef,)): return own_iter(c, st, x)
        if isinstance(x, Obj) or range_like(c.I, x): return v
    if isinstance(v, Sym): 
        if c.I.ty(v.ty)["k"] in ("param", "alias", "other"): return Obj("opaque", v)
    return None
@tm("Iterator", "next")
def _(c, st, a):
    if c.f.get("local"): return None
    return it_next_model(c, st, a, False)
@tm("DoubleEndedIterator", "next_back")
def _(c, st, a): return it_next_model(c, st, a, True)
def it_next_model(c, st, a, back):
    I = c.I; loc, path = target(I, st, a); cur = I.rd(st, loc, path)
    if isinstance(cur, Sym): 
        if I.ty(cur.ty)["k"] not in ("param", "alias", "other"): return None
        cur = Obj("opaque", cur)
    if not (isinstance(cur, Obj) or range_like(I, cur)): return None
    out = []
    for s, n, v in it_next(c, st, cur, back):
        s = s.copy(); I.wr(s, loc, path, n)
        out.append((s, none(c.dty) if v is None else some(c.dty, v)))
    return out
def adaptor(name, nargs, extra=()):
    def f(c, st, it, *a):
        i = own_iter(c, st, it)
        if i is None: return None
        return [(st, Obj(name, i, *a, *extra))]
    return f
for _n, _x in (("rev", ()), ("copied", ()), ("cloned", ()), ("map", ()), ("filter", ()), ("filter_map", ()), ("take_while", (False,)), ("skip_while", (False,)), ("take", ()),
               ("skip", ()), ("flat_map", (None,)), ("flatten", (None, None)), ("enumerate", (ZERO,)), ("inspect", ()), ("map_while", ())):
    TRAITS[("Iterator", _n)] = adaptor(_n, 1, _x)
for _n in ("take", "skip"):
    def _cut(c, st, it, n, nm=_n):
        i = own_iter(c, st, it)
        if i is None: return None
        r = cut_iter(c.I, st, i, n, nm == "take") if isinstance(n, Lin) else None
        return r if r is not None else [(st, Obj(nm, i, n))]
    TRAITS[("Iterator", _n)] = _cut
@tm("Iterator", "scan")
def _(c, st, it, acc, fn):
    i = own_iter(c, st, it)
    return None if i is None else [(st, Obj("scan", i, acc, fn))]
@tm("Iterator", "peekable")
def _(c, st, it): return [(st, Obj("peekable", own_iter(c, st, it), None))]
@tm("Iterator", "by_ref")
def _(c, st, it): return [(st, it)]
@tm("Iterator", "fuse")
def _(c, st, it): return [(st, own_iter(c, st, it))]
@tm("Iterator", "zip")
def _(c, st, a, b): return [(st, Obj("zip", own_iter(c, st, a), to_iter(c, st, b)))]
@tm("Iterator", "chain")
def _(c, st, a, b): return [(st, Obj("chain", own_iter(c, st, a), to_iter(c, st, b), False))]
@m("core::iter::sources::once::once")
def _(c, st, v): return [(st, Obj("once", v))]
@m("core::iter::sources::empty::empty")
def _(c, st): return [(st, Obj("empty"))]
@m("core::iter::adapters::peekable::Peekable::peek")
def _(c, st, a):
    I = c.I; loc, path = target(I, st, a); it = I.rd(st, loc, path)
    if it.f[1] is not None: return [(st, some(c.dty, VRef(it.f[1].f[0])) if it.f[1].f else none(c.dty))]
    out = []
    for s, n, v in it_next(c, st, it.f[0]):
        s = s.copy(); I.wr(s, loc, path, Obj("peekable", n, Obj("pk") if v is None else Obj("pk", v)))
        out.append((s, none(c.dty) if v is None else some(c.dty, VRef(v))))
    return out

def peek_states(c, st, loc, path):
    """Fill the peeked slot: [(st, peekable)]"""
    I = c.I; it = I.rd(st, loc, path)
    if it.f[1] is not None: return [(st, it)]
    out = []
    for s, n, v in it_next(c, st, it.f[0]):
        s = s.copy(); p = Obj("peekable", n, Obj("pk") if v is None else Obj("pk", v)); I.wr(s, loc, path, p); out.append((s, p))
    return out
@m("core::iter::adapters::peekable::Peekable::next_if", "core::iter::adapters::peekable::Peekable::next_if_eq")
def _(c, st, a, f):
    I = c.I; loc, path = target(I, st, a); out = []
    for s, p in peek_states(c, st, loc, path):
        if not p.f[1].f: 
            s = s.copy(); I.wr(s, loc, path, p); out.append((s, none(c.dty))); continue
        v = p.f[1].f[0]
        if c.path.endswith("next_if_eq"): rs = [(s, I.eq(s, peel(I, s, v), peel(I, s, f)))]
        else: rs = [(x, r) for x, _, r in I.call_any_val(s, f, [VRef(v)], c.d, c.t, c.fn)]
        for s2, r in rs:
            for s3, b in s2.split(r):
                s3 = s3.copy()
                if b: I.wr(s3, loc, path, Obj("peekable", p.f[0], None)); out.append((s3, some(c.dty, v)))
                else: I.wr(s3, loc, path, p); out.append((s3, none(c.dty)))
    return out

def plain_seq(I, st, it):
    """Iterator that is just a slice of a sequence -> (seq, lo, hi) or None (order preserving)."""
    if isinstance(it, Obj):
        if it.tag == "it" and it.f[3] in ("ref", "val", "char"): return it.f[0], it.f[1], it.f[2]
        if it.tag in ("copied", "cloned"): return plain_seq(I, st, it.f[0])
    return None
def flat_seq(I, st, it):
    """[(st, segs)] of an iterator whose items are known sequence segments, in order; None otherwise."""
    if not isinstance(it, Obj): return None
    t = it.tag; f = it.f
    if t == "it" and f[3] in ("ref", "val", "char"):
        return [(s, q.segs) for s, q in I.seq_slice(st, f[0], f[1], f[2])]
    if t in ("copied", "cloned"): return flat_seq(I, st, f[0])
    if t == "once": return [(st, (("el", peel(I, st, f[0]) if isinstance(f[0], VRef) else f[0]),))]
    if t == "empty": return [(st, ())]
    if t == "optit": return [(st, () if f[0] is None else (("el", f[0]),))]
    if t == "chain":
        out = []
        first = [(st, ())] if f[2] else flat_seq(I, st, f[0])
        if first is None: return None
        for s, a in first:
            r = flat_seq(I, s, f[1])
            if r is None: return None
            out += [(s2, a + b) for s2, b in r]
        return out
    if t == "rev":
        r = flat_seq(I, st, f[0])
        return r and [(s, tuple(rev_seg(x) for x in reversed(segs))) for s, segs in r]
    if t in ("skip", "take"):
        r = flat_seq(I, st, f[0])
        if r is None: return None
        out = []
        for s, segs in r:
            q = Seq("vec", segs, None); n = I.seq_len(q)
            x = s.copy()
            if x.add_le(f[1] - n):
                for s2, l, rr in I.seq_split(x, q, f[1]): out.append((s2, l if t == "take" else rr))
            y = s.copy()
            if y.add_le(n - f[1] + 1): out.append((y, segs if t == "take" else ()))
        return out
    return None
def rev_seg(x):
    if x[0] != "run": return x
    b = x[1]
    if b[0] == "rv": return ("run", b[1], b[2] - x[3], b[2] - x[2])
    return ("run", ("rv", b, x[3]), ZERO, x[3] - x[2])
def cut_iter(I, st, it, n, take):
    """take(n) / skip(n) of an iterator over a known range of a sequence -> [(st, it)], or None."""
    if not isinstance(it, Obj): return None
    if it.tag in ("copied", "cloned"):
        r = cut_iter(I, st, it.f[0], n, take)
        return r and [(s, Obj(it.tag, x)) for s, x in r]
    back = False; j = it
    if it.tag == "rev": back = True; j = it.f[0]
    cw = []
    while isinstance(j, Obj) and j.tag in ("copied", "cloned"): cw.append(j.tag); j = j.f[0]
    if not (isinstance(j, Obj) and j.tag == "it" and j.f[3] in ("ref", "val", "char")): return None
    seq, lo, hi, mode = j.f
    out = []
    for cond, far in ((n - (hi - lo), False), ((hi - lo) - n + 1, True)):
        s = st.copy()
        if not s.add_le(cond): continue
        if take: l, h = ((lo, hi) if far else (hi - n, hi) if back else (lo, lo + n))
        else: l, h = ((hi, hi) if far else (lo, hi - n) if back else (lo + n, hi))
        if far and not take and back: l, h = lo, lo
        x = Obj("it", seq, l, h, mode)
        for w in reversed(cw): x = Obj(w, x)
        out.append((s, Obj("rev", x) if back else x))
    return out
def bag(I, it):
    """Strip order-only adaptors."""
    while isinstance(it, Obj) and it.tag in ("rev", "copied", "cloned"): it = it.f[0]
    return it

@tm("Iterator", "count")
def _(c, st, it):
    i = own_iter(c, st, it)
    if i is None: return None
    b = bag(c.I, i)
    while isinstance(b, Obj) and b.tag in ("map", "enumerate") and pure(c, b): b = bag(c.I, b.f[0])
    if isinstance(b, Obj) and b.tag == "it" and not c.I.hooks_yield:
        return [(st, b.f[2] - b.f[1])]
    def body(s, la, v):
        s.mem[la] = s.mem[la] + 1; return [(s, "back", None)]
    return [(s, a) for s, a, x, n in consume(c, st, i, ZERO, body, "count")]
def pure(c, b):
    return b.tag == "enumerate" or (isinstance(b.f[1], Agg) and not mrefs(b.f[1])) or isinstance(b.f[1], FnV)
@tm("Iterator", "sum")
def _(c, st, it):
    i = own_iter(c, st, it)
    if i is None: return None
    I = c.I; j = bag(I, i); f = None
    if isinstance(j, Obj) and j.tag == "map" and pure(c, j): f = j.f[1]; inner = j.f[0]; b = bag(I, inner)
    else: b = j; inner = j
    if isinstance(b, Obj) and b.tag == "it" and f is not None:
        seq, lo, hi, mode = b.f
        out = []
        for s, q in I.seq_slice(st, seq, lo, hi):
            tot = ZERO; okk = True
            for x in q.segs:
                if x[0] == "el": e = x[1]; k = None
                else:
                    k = Lin.atom(("v", I.fresh("gen"))); e = I.elem(x[1], k, seq.ety)
                s2 = s.copy()
                if k is not None: s2.cons = s2.cons + (x[2] - k, k - x[3] + 1)
                item = VRef(e) if mode == "ref" and inner is b else e
                if isinstance(inner, Obj) and inner.tag in ("copied", "cloned"): item = e
                rs = I.call_any_val(s2, f, [item], c.d, c.t, c.fn)
                if len(rs) != 1 or not isinstance(rs[0][2], Lin): okk = False; break
                r = rs[0][2]
                if k is None: tot = tot + r
                elif r == U(x[1], k + 1) - U(x[1], k): tot = tot + U(x[1], x[3]) - U(x[1], x[2])
                elif r.is_const(): tot = tot + (x[3] - x[2]) * r.c
                else: okk = False; break
            if okk: out.append((s, tot))
            else:
                v = I.mkval(I.fresh("sum"), c.dty); out.append((s, v))
        return out
    def body(s, la, v):
        v = peel(I, s, v)
        if not isinstance(v, Lin): raise Imprecise("sum")
        s.mem[la] = s.mem[la] + v; return [(s, "back", None)]
    return [(s, a) for s, a, x, n in consume(c, st, i, ZERO, body, "sum")]
@tm("Iterator", "fold")
def _(c, st, it, init, f):
    i = own_iter(c, st, it)
    if i is None: return None
    I = c.I
    def body(s, la, v):
        acc, fv = s.mem[la].f; out = []
        for s2, nf, r in I.call_any_val(s, fv, [acc, v], c.d, c.t, c.fn):
            s2 = s2.copy(); s2.mem[la] = Obj("acc", r, nf); out.append((s2, "back", None))
        return out
    return [(s, a.f[0]) for s, a, x, n in consume(c, st, i, Obj("acc", init, f), body, "fold")]
@tm("Iterator", "for_each")
def _(c, st, it, f):
    i = own_iter(c, st, it)
    if i is None: return None
    I = c.I
    def body(s, la, v):
        out = []
        for s2, nf, r in I.call_any_val(s, s.mem[la], [v], c.d, c.t, c.fn):
            s2 = s2.copy(); s2.mem[la] = nf; out.append((s2, "back", None))
        return out
    return [(s, UNIT) for s, a, x, n in consume(c, st, i, f, body, "for_each")]
def back_write(c, s, it0, n):
    if isinstance(it0, MRef) and not isinstance(n, MRef): pass
    return s
def stopper(name, mk):
    def f(c, st, it, fv=None):
        i = own_iter(c, st, it)
        if i is None: return None
        return mk(c, st, i, fv)
    TRAITS[("Iterator", name)] = f
def _any(c, st, i, fv, want):
    I = c.I
    def body(s, la, v):
        out = []
        for s2, nf, r in I.call_any_val(s, s.mem[la], [v], c.d, c.t, c.fn):
            for s3, b in s2.split(r):
                s3 = s3.copy(); s3.mem[la] = nf; out.append((s3, "exit" if b == want else "back", True))
        return out
    return [(s, (x is True) == want) for s, a, x, n in consume(c, st, i, fv, body, "any")]
stopper("any", lambda c, st, i, fv: _any(c, st, i, fv, True))
stopper("all", lambda c, st, i, fv: _any(c, st, i, fv, False))
def _find(c, st, i, fv):
    I = c.I
    def body(s, la, v):
        out = []
        for s2, nf, r in I.call_any_val(s, s.mem[la], [VRef(v)], c.d, c.t, c.fn):
            for s3, b in s2.split(r):
                s3 = s3.copy(); s3.mem[la] = nf; out.append((s3, "exit" if b else "back", v))
        return out
    return [(s, none(c.dty) if x is None else some(c.dty, x)) for s, a, x, n in consume(c, st, i, fv, body, "find")]
stopper("find", _find)
def _find_map(c, st, i, fv):
    I = c.I
    def body(s, la, v):
        out = []
        for s2, nf, r in I.call_any_val(s, s.mem[la], [v], c.d, c.t, c.fn):
            for s3, p in opt_cases(c, s2, r):
                s3 = s3.copy(); s3.mem[la] = nf; out.append((s3, "exit" if p is not None else "back", p))
        return out
    return [(s, none(c.dty) if x is None else some(c.dty, x)) for s, a, x, n in consume(c, st, i, fv, body, "find_map")]
stopper("find_map", _find_map)
def _position(c, st, i, fv):
    I = c.I
    def body(s, la, v):
        out = []
        fn, k = s.mem[la].f
        for s2, nf, r in I.call_any_val(s, fn, [v], c.d, c.t, c.fn):
            for s3, b in s2.split(r):
                s3 = s3.copy(); s3.mem[la] = Obj("acc", nf, k if b else k + 1); out.append((s3, "exit" if b else "back", True))
        return out
    return [(s, none(c.dty) if x is None else some(c.dty, a.f[1])) for s, a, x, n in consume(c, st, i, Obj("acc", fv, ZERO), body, "position")]
stopper("position", _position)
@tm("Iterator", "last")
def _(c, st, it):
    i = own_iter(c, st, it)
    if i is None: return None
    def body(s, la, v):
        s.mem[la] = some(c.dty, v); return [(s, "back", None)]
    return [(s, a) for s, a, x, n in consume(c, st, i, none(c.dty), body, "last")]
@tm("Iterator", "nth")
def _(c, st, it, k):
    I = c.I
    loc, path = target(I, st, it); cur = I.rd(st, loc, path)
    if isinstance(cur, Obj) and cur.tag == "it":
        seq, lo, hi, mode = cur.f; out = []
        x = st.copy()
        if x.add_le(lo + k - hi + 1):
            for s, n, v in it_next(c, x, Obj("it", seq, lo + k, hi, mode)):
                if v is None: continue
                I.wr(s, loc, path, n); out.append((s, some(c.dty, v)))
        y = st.copy()
        if y.add_le(hi - lo - k):
            I.wr(y, loc, path, Obj("it", seq, hi, hi, mode)); out.append((y, none(c.dty)))
        return out
    return None
@tm("ExactSizeIterator", "len")
def _(c, st, it):
    b = peel(c.I, st, it)
    b = bag(c.I, b)
    if isinstance(b, Obj) and b.tag == "it": return [(st, b.f[2] - b.f[1])]
    return None
def collect_into(c, st, i, seq0):
    I = c.I
    if not I.hooks_yield:
        fl = flat_seq(I, st, i)
        if fl is not None: return [(s, cat(I, s, seq0, segs)) for s, segs in fl]
    if isinstance(i, Obj) and i.tag in ("flat_map", "flatten") and i.f[2] is None:
        fm = i.f[1]
        def fbody(s, la, v):
            q, fv = s.mem[la].f; out = []
            for s2, nf, r in (I.call_any_val(s, fv, [v], c.d, c.t, c.fn) if i.tag == "flat_map" else [(s, fv, v)]):
                for s3, q3 in collect_into(c, s2, to_iter_any(c, s2, r), q):
                    s3 = s3.copy(); s3.mem[la] = Obj("acc", q3, nf); out.append((s3, "back", None))
            return out
        return [(s, a.f[0]) for s, a, x, n in consume(c, st, i.f[0], Obj("acc", seq0, fm), fbody, "collect")]
    def body(s, la, v):
        s.mem[la] = cat(I, s, s.mem[la], [("el", v)] if not (seq0.kind == "str" and isinstance(peel(I, s, v), Seq)) else peel(I, s, v).segs)
        return [(s, "back", None)]
    return [(s, a) for s, a, x, n in consume(c, st, i, seq0, body, "collect")]
@tm("Iterator", "collect")
def _(c, st, it):
    I = c.I; p = I.adt_path(c.dty)
    i = own_iter(c, st, it)
    if i is None: return None
    if p in ("alloc::string::String", "alloc::vec::Vec", VD): return collect_into(c, st, i, new_seq(c))
    if p == "core::result::Result" and I.adt_path(I.ty(c.dty)["args"][0]) == "alloc::vec::Vec":
        vt = I.ty(c.dty)["args"][0]
        def body(s, la, v):
            out = []
            for s2, k, x in res_cases(c, s, v):
                s2 = s2.copy()
                if k == "ok": s2.mem[la] = cat(I, s2, s2.mem[la], [("el", x)])
                out.append((s2, "back" if k == "ok" else "exit", None if k == "ok" else ("err", x)))
            return out
        return [(s, okv(c.dty, a) if x is None else Agg(c.dty, 1, (x[1],))) for s, a, x, n in consume(c, st, i, Seq("vec", (), I.ty(vt)["args"][0]), body, "collect")]
    return None
@m("string::String::from_str", "alloc::string::String::from_str", "<alloc::string::String as core::str::traits::FromStr>::from_str")
def _(c, st, a): return [(st, okv(c.dty, peel(c.I, st, a)))]
@tm("FromIterator", "from_iter")
def _(c, st, it):
    I = c.I; p = I.adt_path(c.dty); i = to_iter(c, st, it)
    if i is None: return None
    if p in ("alloc::string::String", "alloc::vec::Vec", VD): return collect_into(c, st, i, new_seq(c))
    return None
@tm("Extend", "extend")
def _(c, st, a, it):
    I = c.I; loc, path = target(I, st, a); s0 = I.rd(st, loc, path)
    i = to_iter(c, st, it)
    if i is None or not isinstance(s0, Seq): return None
    out = []
    for s, q in collect_into(c, st, i, s0):
        s = s.copy(); I.wr(s, loc, path, q); out.append((s, UNIT))
    return out

# ------------------------------------------------------------------ channels, threads
# I.chan, when set, decides the channel operations of a property (see p_compl.py):
#   create(c, st, names) -> [(st, tx, rx)];  recv(c, st, rx, op) -> [(st, value | None)]
#   send(c, st, tx, v) -> [(st, ok)];        empty(c, st, ch) -> [(st, bool)];   spawn(c, st, clo)
@m("chan::unbounded", "chan::channel", "chan::bounded", "chan::sync_channel")
def _(c, st, *a):
    I = c.I; t = I.ty(c.dty); tx, rx = t["elems"]
    if I.chan is not None: return [(s, Agg(c.dty, None, (x, y))) for s, x, y in I.chan.create(c, st, tx, rx, c.path.split("::")[-1])]
    key = I.fresh("chan")
    st.event("channel", key)
    return [(st, Agg(c.dty, None, (Sym((key, "tx"), tx), Sym((key, "rx"), rx))))]
@m("chan::Sender::send", "chan::Sender::try_send", "chan::SyncSender::send", "chan::SyncSender::try_send")
def _(c, st, ch, v):
    I = c.I
    if I.chan is not None:
        return [(s, okv(c.dty, UNIT) if ok else Agg(c.dty, 1, (I.mkval(I.fresh("senderr"), I.ty(c.dty)["args"][1]),))) for s, ok in I.chan.send(c, st, peel(I, st, ch), v)]
    st.event("send", peel(I, st, ch), v)
    return [(st, I.mkval(I.fresh("sent"), c.dty))]
@m("chan::Receiver::recv", "chan::Receiver::try_recv", "chan::Receiver::recv_timeout")
def _(c, st, ch, *a):
    I = c.I; chv = peel(I, st, ch); nm = c.path.split("::")[-1]
    if I.chan is not None:
        return [(s, okv(c.dty, v) if v is not None else Agg(c.dty, 1, (I.mkval(I.fresh("recverr"), I.ty(c.dty)["args"][1]),))) for s, v in [(waited(s, v, nm), v) for s, v in I.chan.recv(c, st, chv, nm)]]
    r = I.mkval(I.fresh(nm), c.dty)
    st.event(nm, chv, r)
    return [(st, r)]
@m("chan::Receiver::is_empty", "chan::Receiver::len", "chan::Sender::is_empty", "chan::Sender::len")
def _(c, st, ch):
    I = c.I; chv = peel(I, st, ch); nm = c.path.split("::")[-1]
    if I.chan is not None:
        out = []
        for s, e in I.chan.empty(c, st, chv):
            if nm == "is_empty": out.append((s, e)); continue
            n = ZERO
            if not e:
                n = I.mkval(I.fresh("chlen"), c.dty)
                if not s.add_le(-n + 1): continue
            out.append((s, n))
        return out
    r = I.mkval(I.fresh(nm), c.dty)
    st.event(nm, chv, r)
    return [(st, r)]
@m("chan::Receiver::try_iter")
def _(c, st, ch): return [(st, Obj("tryiter", peel(c.I, st, ch)))]
@m("chan::Receiver::iter")
def _(c, st, ch): return [(st, Obj("recviter", peel(c.I, st, ch)))]
@m("std::thread::builder::Builder::new", "std::thread::Builder::new")
def _(c, st): return [(st, Sym(c.I.fresh("tb"), c.dty))]
@m("std::thread::builder::Builder::name", "std::thread::Builder::name", "std::thread::builder::Builder::stack_size", "std::thread::Builder::stack_size")
def _(c, st, b, n): return [(st, b)]
@m("std::thread::builder::Builder::spawn", "std::thread::Builder::spawn", "std::thread::functions::spawn", "std::thread::spawn")
def _(c, st, *a):
    I = c.I
    if I.chan is not None:
        h = Sym(I.fresh("thread"), I.ty(c.dty)["args"][0] if I.adt_path(c.dty) == "core::result::Result" else c.dty)
        return [(s, okv(c.dty, h) if I.adt_path(c.dty) == "core::result::Result" else h) for s in I.chan.spawn(c, st, a[-1])]
    st.event("spawn", a[-1])
    return [(st, I.mkval(I.fresh("spawn"), c.dty))]
