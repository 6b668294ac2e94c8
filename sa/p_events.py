"""Terminal events: exact conversion, order, the reader thread's life; themes."""
from lin import Lin
import absint
from absint import *
from models import okv, peel
from cls import *
from core import crate, rel
from p_history import setup, args_of, observe, need, panics, finish, unit
from p_compl import sym_idx, strip, ZERO, ONE

def variants(I, ty): return [v["name"] for v in I.ty(ty)["variants"]]

class Reader:
    """Interprets Events::new and the thread it starts against a monitor of what was read and what was sent."""
    def __init__(s, R, I, ctor, tid):
        s.R = R; s.I = I; s.tid = tid; s.reads = 0; s.sends = 0; s.threads = 0; s.to = []; s.made = []
        st = State(); st.ghost.update(nch=ZERO, role="ui", ph="idle")
        I.chan = s; I.call_hook = s.hook
        try:
            for x, r in I.call_fn(st, ctor, args_of(I, ctor, 1), 0): s.made.append((x, r))
        finally: I.chan = None; I.call_hook = None
    def check(s, st, rule, key, ok, detail=""):
        if not s.I.record: s.R.ob(rule, key, ok, detail + ("" if ok else f"; {show(st)}"[:400]))
        return ok
    def create(s, c, st, tx, rx, nm):
        n = st.ghost["nch"]; st = st.copy(); st.ghost["nch"] = n + 1
        s.check(st, "exact", "unbounded channel", nm in ("unbounded", "channel"), f"a bounded channel may block or drop events: {nm}")
        return [(st, Sym(("el", ("c", "tx"), n), tx), Sym(("el", ("c", "rx"), n), rx))]
    def spawn(s, c, st, clo):
        I = s.I
        if st.ghost["role"] != "ui": raise Imprecise("the reader starts a thread")
        n = st.copy(); n.ghost["spawned"] = True
        if not I.record:
            s.threads += 1; s.R.saw("threads", c.fn.path)
            x = st.copy(); x.trace = (); x.ghost = {"nch": st.ghost["nch"], "role": "reader", "ph": "idle"}
            for y, _, r in I.call_any_val(x, clo, [], c.d, c.t, c.fn):
                s.check(y, "life", "reader ends", y.ghost["ph"] == "txfail", f"the reader ends although the interface still listens (phase {y.ghost['ph']!r})")
        return [n]
    def fate(s, st):
        """What was read must have been dealt with before the next one is read or the thread ends."""
        ph = st.ghost["ph"]
        s.check(st, "life", "reader stops", ph != "txfail", "another event is read although nobody listens any more")
        if isinstance(ph, Obj) and ph.tag == "got":
            k = st.ghost["kind"]
            s.check(st, "exact", f"{k} passed on", k not in ("Key", "Resize"), f"a {k} event is dropped")
    def hook(s, c, st, np, args):
        I = s.I
        if np.startswith("crossterm::event::") and np.split("::")[-1] in ("read", "poll") and I.adt_path(c.dty) == "core::result::Result":
            if st.ghost["role"] != "reader": raise Imprecise(f"{np} is called outside the reader")
            t = I.ty(c.dty)["args"]
            st = st.copy(); st.event("wait"); e = st.copy(); err = Agg(c.dty, 1, (I.mkval(I.fresh("ioerr"), t[1]),))
            if np.endswith("poll"):
                return [(st.copy(), okv(c.dty, True)), (st.copy(), okv(c.dty, False)), (e, err)]
            s.fate(st)
            if not I.record: s.reads += 1
            b = ("c", ("stream", "term")); I.base_ety[b] = t[0]; cur = st.ghost.get("cur:term", ZERO)
            x = st.copy(); x.ghost["cur:term"] = cur + 1
            v = I.elem(b, cur, t[0]); x.ghost["ph"] = Obj("got", v)
            e.ghost["ph"] = "idle"; e.ghost.pop("kind", None)
            vs = variants(I, v.ty); out = []
            for y, dv in I.discr(x, v, v.ty):
                k = [vs[i] for i in range(len(vs)) if I.discr_of(v.ty, i) == dv.c][0]
                y.ghost["kind"] = k if k in ("Key", "Resize") else "other"
                out.append((y, okv(c.dty, v)))
            return out + [(e, err)]
        return None
    def recv(s, c, st, ch, op): raise Imprecise("the constructor or the reader receives")
    def empty(s, c, st, ch): return [(st.copy(), True), (st.copy(), False)]
    def send(s, c, st, ch, v):
        I = s.I; i = sym_idx(ch, "tx"); ph = st.ghost["ph"]
        if i is None: raise Imprecise(f"send on {ch!r}")
        if not I.record: s.sends += 1; s.to.append(i)
        got = isinstance(ph, Obj) and ph.tag == "got" and st.ghost["role"] == "reader"
        if s.check(st, "exact", "one event per event read", got, f"{v!r} is sent in phase {ph!r}"):
            e = ph.f[0]; vs = variants(I, e.ty); p = strip(v)
            for y, dv in I.discr(st.copy(), e, e.ty):
                j = [i2 for i2 in range(len(vs)) if I.discr_of(e.ty, i2) == dv.c][0]; k = vs[j]
                for z, pd in I.discr(y, p, p.ty):
                    pvs = variants(I, p.ty); pk = [i2 for i2 in range(len(pvs)) if I.discr_of(p.ty, i2) == pd.c][0]
                    q = p if isinstance(p, Agg) else I.expand(p, pk)
                    s.check(z, "exact", f"{k} as {k}", pvs[pk] == k and k in ("Key", "Resize"), f"a {k} event is passed on as {pvs[pk]}")
                    if k == "Key" == pvs[pk]:
                        ke = I.proj(z, I.expand(e, j) if isinstance(e, Sym) else e, 0)
                        src = {f["name"]: n for n, f in enumerate(I.ty(I.ty(e.ty)["variants"][j]["fields"][0]["ty"])["variants"][0]["fields"])}
                        dst = {f["name"]: n for n, f in enumerate(I.ty(p.ty)["variants"][pk]["fields"])}
                        for a, b in (("code", "code"), ("modifiers", "mods")):
                            if s.check(z, "exact", f"field {b}", a in src and b in dst, f"no field {a} of {src} or {b} of {dst}"):
                                w = I.proj(z, ke, src[a]); g = q.f[dst[b]]
                                s.check(z, "exact", f"key {b}", val_equal(I, z, w, g), f"{b} becomes {g!r}, expected {w!r}")
        x = st.copy(); x.ghost["ph"] = "sent"; y = st.copy(); y.ghost["ph"] = "txfail"
        return [(x, True), (y, False)]

class Inbox:
    """The interface's side of the event channel."""
    def __init__(s, I): s.I = I
    def create(s, *a): raise Imprecise("channel created")
    def spawn(s, *a): raise Imprecise("thread spawned")
    def send(s, *a): raise Imprecise("send by the interface")
    def empty(s, c, st, ch):
        a = st.copy(); a.ghost["drained"] = True
        b = st.copy(); b.ghost["waiting"] = True
        return [(a, True), (b, False)] if st.ghost.get("waiting") is not True else [(b, False)]
    def recv(s, c, st, ch, op):
        I = s.I; b = ("c", ("stream", ch.key)); t = I.ty(ch.ty)["args"][0]; I.base_ety[b] = t
        cur = st.ghost.get("cur:in", ZERO)
        w = st.ghost.get("waiting") is True
        x = st.copy(); x.ghost["cur:in"] = cur + 1; x.ghost["drained"] = False; x.ghost.pop("waiting", None)
        out = [(x, I.elem(b, cur, t))]
        if not w:
            e = st.copy(); e.ghost["drained"] = True; out.append((e, None))
        if op != "try_recv" and not w:
            for y, _ in out: y.ghost["blocking"] = True
        return out

def events(R):
    R.rule("anchor", "the analysed API exists")
    R.rule("exact", "every key event read from the terminal is passed on once with its code and modifiers, every resize as a resize, nothing else, in the order read")
    R.rule("life", "the reading thread keeps reading, also after a failed read, until nobody listens any more, and reads nothing after that")
    R.rule("wiring", "what the reader sends arrives at the interface made with it")
    R.rule("next", "taking an event returns the oldest one waiting and only that one, nothing when none waits, and never blocks")
    R.rule("no-panic", "no panic is reachable")
    absint.REGIONS.clear()
    cr, I, tid, mut, rd, _ = setup("Events")
    ctor = [f for f in cr.fns if f.local and f.name == "new" and "Events" in f.path and not f.closure_of and not f.raw.get("mono")]
    if not (R.ob("anchor", "new", len(ctor) == 1, "constructor not found") and need(R, mut, "next")): return
    e = Reader(R, I, ctor[0], tid)
    R.ob("anchor", "reader thread", e.threads == 1, f"{e.threads} threads are started, one expected")
    R.ob("anchor", "terminal read", e.reads >= 1, "the terminal is never read"); R.ob("anchor", "events sent", e.sends >= 1, "no event is sent")
    n = 0
    for x, r in e.made:
        if isinstance(r, Agg) and I.adt_path(r.ty) == "core::result::Result":
            if r.var != 0: continue
            r = r.f[0]
        n += 1
        rx = [sym_idx(f, "rx") for f in r.f]
        R.ob("wiring", "same channel", len([i for i in rx if i is not None]) == 1 and all(x.entails_eq(i - k) for i in e.to for k in rx if k is not None), f"the reader sends on {e.to}, the interface listens on {rx}", rel(ctor[0].where()))
        R.ob("wiring", "reader started", x.ghost.get("spawned") is True, "made without a reader thread")
    R.ob("anchor", "made", n >= 1, "new() never succeeds")
    # taking
    I.chan = Inbox(I); f = mut["next"]
    fs = cr.types[tid]["variants"][0]["fields"]
    obj = Agg(tid, None, [I.mkval(("inv", (None, k)), g["ty"]) for k, g in enumerate(fs)])
    st = State(); st.mem[SELF] = obj
    try:
        for x, r in I.call_fn(st, f, [MRef(SELF, ())], 0):
            cur = x.ghost.get("cur:in", ZERO)
            R.ob("next", "never blocks", not x.ghost.get("blocking"), "waits for an event", rel(f.where()))
            R.ob("next", "keeps listening", x.mem[SELF] == obj, f"the object changes to {x.mem[SELF]!r}", rel(f.where()))
            for y, dv in I.discr(x, r, r.ty):
                if dv.c == 0: R.ob("next", "none when none waits", cur == ZERO and x.ghost.get("drained") is True, f"returns nothing after taking {cur!r} events", rel(f.where()))
                else:
                    v = r.f[0] if isinstance(r, Agg) else None; k = I.as_run(v) if v is not None else None
                    R.ob("next", "the oldest", k is not None and cur == ONE and y.entails_eq(k[1]), f"returns {v!r} after taking {cur!r} events", rel(f.where()))
    finally: I.chan = None
    R.floor("anchor", "threads", 1)
    panics(R, I, "no-panic"); finish(R, I)

# ---------------------------------------------------------------- themes
LIGHT = {"White": "Black", "Magenta": "LightMagenta", "LightCyan": "Cyan", "LightRed": "Red", "Yellow": (210, 105, 30), "LightYellow": (255, 140, 0)}
GREY = (192, 192, 192); DARK = (55, 55, 55)

def theme(R):
    R.rule("anchor", "the analysed API exists")
    R.rule("even", "an even theme number leaves a style as it is")
    R.rule("odd", "an odd theme number maps foreground and background each by the light palette and leaves everything else as it is")
    R.rule("no-panic", "no panic is reachable for any number and style")
    absint.REGIONS.clear()
    cr = unit(); I = Interp(cr)
    fs = [f for f in cr.fns if f.local and f.name == "theme" and not f.closure_of and not f.raw.get("mono") and f.nargs == 2 and (I.adt_path(f.locals[1]["ty"]) or "").endswith("::Style")]
    if not R.ob("anchor", "theme", len(fs) == 1, f"{len(fs)} theme functions for styles found"): return
    f = fs[0]; wh = rel(f.where()); sty = f.locals[1]["ty"]
    F = I.ty(sty)["variants"][0]["fields"]; ix = {g["name"]: k for k, g in enumerate(F)}
    if not R.ob("anchor", "style", {"fg", "bg", "add_modifier", "sub_modifier"} <= set(ix), f"style has {sorted(ix)}"): return
    opt = F[ix["fg"]]["ty"]; col = I.ty(opt)["args"][0]; cv = variants(I, col)
    cidx = {n: k for k, n in enumerate(cv)}
    R.saw("colours", *cv)
    def colours(slot):
        """[(name, value of the option, expected option after the light palette as predicate list)]"""
        out = [("unset", Agg(opt, 0, ()), None)]
        for k, n in enumerate(cv):
            fl = I.ty(col)["variants"][k]["fields"]
            v = Agg(col, k, [I.mkval(("col", slot, n, i), g["ty"]) for i, g in enumerate(fl)])
            out.append((n, Agg(opt, 1, (v,)), v))
        return out
    def rgb(t): return Agg(col, cidx["Rgb"], [Lin.const(x) for x in t])
    def light(st, v):
        """[(state, expected colour)]"""
        n = cv[v.var]
        if n == "Rgb":
            eqs = [Pred("eq", a - b) for a, b in zip(v.f, map(Lin.const, GREY))]; out = []; cur = [st]
            for p in eqs:
                nxt = []
                for x in cur:
                    nxt += x.copy().assume(p, True); out += [(y, v) for y in x.copy().assume(p, False)]
                cur = nxt
            return out + [(x, rgb(DARK)) for x in cur]
        w = LIGHT.get(n)
        if w is None: return [(st, v)]
        return [(st, rgb(w) if isinstance(w, tuple) else Agg(col, cidx[w], ()))]
    n = 0; bits = abs(I.int_bits(f.locals[2]["ty"])); h = Lin.atom(("s", ("half",), bits))
    rest = {k: I.mkval(("style", g["name"]), g["ty"]) for k, g in enumerate(F)}
    for odd in (0, 1):
        for a in ("fg", "bg"):
            for name, o, v in colours(a):
                # the other colour is unset in one run and takes a mapped value in another
                b = "bg" if a == "fg" else "fg"
                for bo, bv in ((Agg(opt, 0, ()), None), (Agg(opt, 1, (Agg(col, cidx["White"], ()),)), Agg(col, cidx["White"], ()))):
                    s0 = State(); s0.cons = (h + h + (odd - (1 << bits) + 1), -h)
                    vals = dict(rest); vals[ix[a]] = o; vals[ix[b]] = bo
                    sv = Agg(sty, None, [vals[k] for k in range(len(F))])
                    for x, r in I.call_fn(s0, f, [sv, h + h + odd], 0):
                        n += 1; exp = [(x, sv)]
                        if odd:
                            exp = []
                            for z, c1 in (light(x, v) if v is not None else [(x, None)]):
                                for w, c2 in (light(z, bv) if bv is not None else [(z, None)]):
                                    e = list(sv.f)
                                    if c1 is not None: e[ix[a]] = Agg(opt, 1, (c1,))
                                    if c2 is not None: e[ix[b]] = Agg(opt, 1, (c2,))
                                    exp.append((w, Agg(sty, None, e)))
                        for w, e in exp:
                            if w.infeasible(): continue
                            bad = [F[k]["name"] for k in range(len(F)) if not val_equal(I, w, e.f[k], I.proj(w, r, k))]
                            R.ob("odd" if odd else "even", f"{a} {name}" + (f", {b} {cv[bv.var]}" if bv is not None else ""), not bad, f"{bad} of the style: {sv!r} becomes {r!r}, expected {e!r}", wh)
    R.ob("anchor", "cases", n >= 4 * len(cv), f"{n} cases analysed")
    panics(R, I, "no-panic"); finish(R, I)
