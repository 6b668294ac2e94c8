"""History: bounded, ordered recall of entered lines (H01)."""
from lin import Lin
from absint import *
from cls import *
from core import crate, rel

LIMIT = 100

def unit(): return crate("partial", "ogma_shell_partial")

def setup(name):
    cr = unit(); I = Interp(cr); tid = struct_ty(cr, name)
    mut, rd, ctor = methods(cr, tid)
    if mut: I.thr = thresholds(cr, mut[0].file)
    return cr, I, tid, {f.name: f for f in mut}, {f.name: f for f in rd}, {f.name: f for f in ctor}

def args_of(I, f, start=2):
    return [I.mkval(("arg", f.name, k), f.locals[k]["ty"]) for k in range(start, f.nargs + 1)]

def apply_of(f, ghost=None):
    def ap(I, st):
        a = args_of(I, f)
        pre = st.copy()
        return [(s, ghost(pre, s, a, r) if ghost else dict(s.ghost)) for s, r in I.call_fn(st, f, [MRef(SELF, ())] + a, 0)]
    return ap

def observe(I, st, f, *args):
    """Run a &self method on the object: [(st, ret)]"""
    return I.call_fn(st, f, [VRef(I.rd(st, SELF, ()))] + list(args), 0)

def need(R, d, *names):
    ok = True
    for n in names:
        ok &= R.ob("anchor", n, n in d, f"method {n} not found")
    return ok

def panics(R, I, rule):
    """One obligation per panic site met during the analysis."""
    for (fn, kind, where), o in sorted(I.obl.items()):
        R.ob(rule, f"{fn}:{kind}", not o["fail"], f"{'may never end' if kind == 'endless loop' else 'may panic'}: {kind}: {o['fail'][:1]}", rel(where))
        R.saw("panic sites", f"{fn}:{kind}:{where}")
    for p in sorted(I.imprecise):
        R.ob(rule, f"unknown:{p}", False, f"call to {p} has no model: its effects are unknown")

def finish(R, I):
    R.saw("functions", *I.fns_analysed)
    R.saw("std models used", *I.calls_modelled)

def view(I, st, cur):
    """[(st, None | (element index Lin) | value)] of current() on the object in st."""
    out = []
    for s, r in observe(I, st.copy(), cur):
        if isinstance(r, Agg): out.append((s, deref(I, s, r.f[0]) if r.var == 1 else None))
        else: raise Imprecise("current() result")
    return out

def history(R):
    R.rule("anchor", "the analysed API exists")
    R.rule("bound", "after adding a line the store is the newest entries of old store + line, oldest dropped first, at most 100 kept, existing entries unmodified")
    R.rule("neutral", "after adding a line no entry is selected")
    R.rule("back", "stepping back selects the newest entry from neutral, then the next older one, and neutral after the oldest; on an empty store nothing is selected")
    R.rule("fwd", "stepping forward selects the oldest entry from neutral, then the next newer one, and neutral after the newest")
    R.rule("browse-pure", "stepping never changes the stored entries; looking changes nothing")
    R.rule("no-panic", "no panic is reachable in any history of calls, and every loop ends")
    cr, I, tid, mut, rd, ctor = setup("History")
    if not (need(R, mut, "back", "fwd", "add") and need(R, rd, "current") and need(R, ctor, "new")): return
    fi = field_index(cr, tid, "items")
    st0 = State()
    inv = Inv(I, tid, [(s, r) for s, r in I.call_fn(st0, ctor["new"], [], 0)], [(n, apply_of(f)) for n, f in sorted(mut.items())])
    states = inv.states()
    for s in states: R.saw("object states", f"{s.mem[SELF]!r} where {show(s)}")
    for pre in states:
        obj = pre.mem[SELF]; items = obj.f[fi]
        n = I.seq_len(items)
        tag = f"{obj!r}"
        # looking
        for s, v in view(I, pre, rd["current"]):
            R.ob("browse-pure", f"current {tag}", s.mem[SELF] == obj, "current() modifies the history")
        # add
        for s, r in I.call_fn(pre.copy(), mut["add"], [MRef(SELF, ())] + args_of(I, mut["add"]), 0):
            line = args_of(I, mut["add"])[0]
            post = s.mem[SELF].f[fi]
            ok = True; why = ""
            for c, want in ((Pred("le", n + 1 - LIMIT), tuple(items.segs)), (Pred("le", -(n + 1 - LIMIT) + 1), None)):
                for s2 in s.copy().assume(c, True):
                    if want is None:
                        d = n + 1 - LIMIT
                        w = I.seq_split(s2, items, d)
                        exp = [(x, rr) for x, _, rr in w]
                    else: exp = [(s2, want)]
                    for s3, segs in exp:
                        if not seq_equal(I, s3, post, Seq("vec", segs + (("el", line),), items.ety)): ok = False; why = f"store becomes {post!r}, expected {segs} + line, when {show(s3)}"
            R.ob("bound", f"add {tag}", ok, why, rel(mut["add"].where()))
            for s2, v in view(I, s, rd["current"]):
                R.ob("neutral", f"add {tag}", v is None, f"after add, current() is {v!r}", rel(mut["add"].where()))
        # browsing
        for name in ("back", "fwd"):
            f = mut[name]
            for s0, v0 in view(I, pre, rd["current"]):
                s0.mem[SELF] = obj
                i0 = None
                if v0 is not None:
                    r = I.as_run(v0)
                    if r is None or not items.segs or r[0] != items.segs[0][1]: R.ob(name, f"{tag} current", False, f"current() returns {v0!r}, not a stored entry"); continue
                    i0 = r[1]
                for s1, _ in I.call_fn(s0.copy(), f, [MRef(SELF, ())], 0):
                    R.ob("browse-pure", f"{name} {tag}", seq_equal(I, s1, s1.mem[SELF].f[fi], items), f"entries change to {s1.mem[SELF].f[fi]!r}", rel(f.where()))
                    for s2, v1 in view(I, s1, rd["current"]):
                        cases = []          # (assumption, expected index | None)
                        if i0 is None: cases = [(Pred("eq", n) if not n.is_const() else n.c == 0, None), (Pred("le", -n + 1) if not n.is_const() else n.c > 0, n - 1 if name == "back" else Lin.const(0))]
                        elif name == "back": cases = [(Pred("eq", i0), None), (Pred("le", -i0 + 1), i0 - 1)]
                        else: cases = [(Pred("eq", i0 - n + 1), None), (Pred("le", i0 - n + 2), i0 + 1)]
                        for c, want in cases:
                            for s3 in s2.copy().assume(c, True):
                                if want is None: ok = v1 is None
                                else:
                                    ex = I.seq_get(s3, items, want)
                                    ok = v1 is not None and all(val_equal(I, x, v1, e) for x, e in ex)
                                R.ob(name, f"{tag} from {'neutral' if i0 is None else 'entry'} to {'neutral' if want is None else 'entry'}", ok,
                                     f"{name}() from {'neutral' if i0 is None else f'entry {i0}'} of {n} selects {v1!r}, expected {'nothing' if want is None else f'entry {want}'}; {show(s3)}", rel(f.where()))
    panics(R, I, "no-panic")
    R.saw("methods", *mut, *rd)
    R.floor("anchor", "methods", 4); R.floor("anchor", "object states", 3)
    finish(R, I)
