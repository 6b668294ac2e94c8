"""Completions: requests, freshness of results, highlighting, the engine threads."""
from lin import Lin
import absint
from absint import *
from models import okv, peel
from cls import *
from core import crate, rel
from p_history import setup, args_of, apply_of, observe, need, panics, finish

ZERO = Lin.const(0); ONE = Lin.const(1)
SEPS = frozenset(map(ord, " \t\r\n./\\"))
LIMIT = 10

def sym_idx(v, kind):
    """Index of a channel end created by Chan.create -> Lin | None"""
    if isinstance(v, Sym) and isinstance(v.key, tuple) and len(v.key) == 3 and v.key[0] == "el" and v.key[1] == ("c", kind): return v.key[2]
    return None

def strip(v):
    while True:
        if isinstance(v, VRef): v = v.v
        elif isinstance(v, Obj) and v.tag in ("arc", "box"): v = v.f[0]
        else: return v

# ---------------------------------------------------------------- the UI side
class UiChan:
    """Channel semantics for the owner of the completions: results arrive as a stream, received ones in order."""
    def __init__(s, I, items=None): s.I = I; s.items = items
    def base(s, ch): return ("c", ("stream", ch.key))
    def create(s, c, st, tx, rx, nm): raise Imprecise("channel created by the UI side")
    def spawn(s, c, st, clo): raise Imprecise("thread spawned by the UI side")
    def empty(s, c, st, ch):
        a = st.copy(); a.ghost["drained"] = True
        return [(a, True), (st.copy(), False)]
    def recv(s, c, st, ch, op):
        I = s.I; b = s.base(ch); g = "cur:" + kstr(b)
        cur = st.ghost.get(g, ZERO)
        t = I.ty(ch.ty)["args"][0]
        I.base_ety[b] = t
        x = st.copy(); x.ghost[g] = cur + 1; x.ghost["drained"] = False
        if op != "try_recv": x.ghost["blocking"] = True
        v = I.elem(b, cur, t)
        k = s.items
        if k is not None:
            n = I.seq_len(I.proj(x, v, k))
            x.cons = x.cons + (-n + 1,)       # answers are never empty: shown of the sending side by C04
        out = [(y, v) for y in (regions(x, v.key) if b in absint.REGIONS else [x])]
        e = st.copy(); e.ghost["drained"] = True
        if op != "try_recv": e.ghost["blocking"] = True
        out.append((e, None))
        return out
    def send(s, c, st, ch, v):
        out = []
        for ok in (True, False):
            x = st.copy(); x.event("send", ch, v, ok); out.append((x, ok))
        return out

class Ui:
    """The Completions object: its reachable states under any sequence of calls."""
    def __init__(s, R, general=False, fast=True):
        absint.REGIONS.clear()
        s.cr, I, s.tid, s.mut, s.rd, s.ctor = setup("Completions"); s.I = I
        s.ok = need(R, s.mut, "request", "recv", "reset", "highlight_next", "highlight_prev") & need(R, s.rd, "has", "word_pos", "items", "highlighted") & need(R, s.ctor, "new")
        if not s.ok: return
        ib = struct_ty(s.cr, "InputBuffer"); imut, ird, ictor = methods(s.cr, ib)
        s.ird = {f.name: f for f in ird}
        s.vs = {f.name: f for f in s.cr.fns if f.path.split("::")[-2:-1] == ["vspec"]}
        inv = Inv(I, ib, [(x, r) for x, r in I.call_fn(State(), {f.name: f for f in ictor}["new"], [], 0)], [(f.name, apply_of(f)) for f in imut])
        # the states of the input line, merged over the change flag (which no reader may depend on but we keep both)
        s.ib = []
        for st in inv.states():
            n = State()
            n.cons = tuple(retag(e, "inv", "ib") for e in st.cons); n.facts = {retag(k, "inv", "ib"): v for k, v in st.facts.items()}
            o = retag(st.mem[SELF], "inv", "ib")
            for b in list(I.base_ety): I.base_ety[retag(b, "inv", "ib")] = I.base_ety[b]
            s.ib.append((n, o))
        R.saw("input states", *[repr(o) for _, o in s.ib])
        # the parts of the object made by the constructor
        s.eng = Engine(Null(), s)
        I.chan = s.chan = UiChan(I, s.eng.pkg_items)
        ch = s.rxbase()
        I.cats = {ch: (s.items_fld(), None)}
        if general:
            # any object at all: every field unknown
            st = State(); st.mem[SELF] = s.any_object()
            s.states = [st]
            R.saw("object states", f"any: {st.mem[SELF]!r}"); return
        ops = {"recv": s.arrive}
        if fast:
            # asking from any object at all over-approximates asking from a reachable one
            st = State(); st.mem[SELF] = s.any_object(); I.record += 1
            try: res = s.op(s.mut["request"])(I, st)
            finally: I.record -= 1
            ops["request"] = lambda I, st: [(x.copy(), g) for x, g in res]
        s.inv = Inv(I, s.tid, s.eng.made, [(n, ops.get(n) or s.op(f)) for n, f in sorted(s.mut.items())])
        s.states = s.inv.states()
        for st in s.states: R.saw("object states", f"{st.mem[SELF]!r} where {show(st)}")
    def reset(s):
        absint.REGIONS.clear(); s.I.chan = s.chan; s.I.cats = {s.rxbase(): (s.items_fld(), None)}
    def rxbase(s):
        fs = s.cr.types[s.tid]["variants"][0]["fields"]
        i = [k for k, f in enumerate(fs) if (s.I.adt_path(f["ty"]) or "").endswith("::Receiver")]
        if len(i) != 1: raise Imprecise("one receiver expected in Completions")
        return ("c", ("stream", ("inv", (None, i[0]))))
    def items_fld(s): return (0, s.eng.pkg_items)
    def with_ib(s, st, ibst, o):
        n = st.copy(); n.cons = n.cons + ibst.cons; n.facts = {**n.facts, **ibst.facts}
        n.mem[("H", "ib")] = o
        return n
    def args(s, st, f):
        """[(state, args)] for a call of f, over the states of any input line passed."""
        a = []; outs = [(st, [])]
        for k in range(2, f.nargs + 1):
            t = s.I.ty(f.locals[k]["ty"]); nxt = []
            for x, acc in outs:
                if t["k"] == "ref" and s.I.adt_path(t["to"]) and s.I.adt_path(t["to"]).endswith("::InputBuffer"):
                    for ibst, o in s.ib: nxt.append((s.with_ib(x, ibst, o), acc + [VRef(o)]))
                else: nxt.append((x, acc + [s.I.mkval(("arg", f.name, k), f.locals[k]["ty"])]))
            outs = nxt
        return outs
    def op(s, f):
        def ap(I, st):
            out = []
            for x, a in s.args(st, f):
                out += [(y, {}) for y, r in I.call_fn(x, f, [MRef(SELF, ())] + a, 0)]
            return out
        return ap
    def any_object(s):
        fs = s.cr.types[s.tid]["variants"][0]["fields"]
        return Agg(s.tid, None, [s.I.mkval(("inv", (None, k)), f["ty"]) for k, f in enumerate(fs)])
    def arrive(s, I, st):
        """What receiving may do (checked against the code by `recv_rules`): items are appended, nothing else changes."""
        o = st.mem[SELF]; pt = I.ty(s.items_ty()); k = s.items_at()
        b = ("c", ("arrived",)); I.base_ety[b] = pt["args"][0]
        a = st.copy(); n = Lin.atom(("n", b)); a.cons = a.cons + (-n,)
        q = o.f[k]; f = list(o.f); f[k] = Seq(q.kind, q.segs + (("run", b, ZERO, n),), q.ety)
        a.mem[SELF] = Agg(o.ty, o.var, f)
        return [(a, {})]
    def items_ty(s):
        return s.cr.types[s.tid]["variants"][0]["fields"][s.items_at()]["ty"]
    def items_at(s):
        fs = s.cr.types[s.tid]["variants"][0]["fields"]
        i = [k for k, f in enumerate(fs) if (s.I.adt_path(f["ty"]) or "").endswith("::Vec")]
        if len(i) != 1: raise Imprecise("one list of items expected in Completions")
        return i[0]
    def call(s, st, name, *args):
        return s.I.call_fn(st.copy(), s.mut[name], [MRef(SELF, ())] + list(args), 0)
    def items(s, st):
        return [(x, deref(s.I, x, r)) for x, r in observe(s.I, st, s.rd["items"])]

# ---------------------------------------------------------------- the engine threads
class Engine:
    """Interprets the constructor and, at every thread it starts (transitively), the thread's body, against a monitor
    of what each thread received, computed and sent."""
    def __init__(s, R, ui):
        s.R = R; s.ui = ui; s.I = I = ui.I
        s.fail = []            # (rule, key, detail)
        s.saw = []
        s.threads = 0; s.loopers = 0; s.completes = 0; s.sends = 0; s.forwards = 0
        s.req = {}             # role of a request field: 'input' | 'cursor' | 'word' | 'stamp' -> index
        s.pkg_items = None; s.pkg_stamp = None
        s.forward_to = set(); s.recv_from = set(); s.pkg_to = set()
        s.bad_seen = set()
        I.chan = s; I.call_hook = s.hook
        f = ui.ctor["new"]
        st = State(); st.ghost.update(nch=ZERO, role="ui", ph="idle")
        s.base0 = None
        a = args_of(I, f, 1)
        s.compl = a[0] if isinstance(a[0], Seq) else None
        s.made = []
        try:
            for x, r in I.call_fn(st, f, a, 0):
                x.ghost = {}; s.made.append((x, r))
        finally: I.chan = None; I.call_hook = None
        fs = ui.cr.types[ui.tid]["variants"][0]["fields"]
        s.tx = s.rx = None
        for x, r in s.made:
            for k, fl in enumerate(fs):
                t = sym_idx(r.f[k], "tx"); q = sym_idx(r.f[k], "rx")
                if t is not None: s.tx = (k, t)
                if q is not None: s.rx = (k, q)
    def check(s, st, rule, key, ok, detail=""):
        if s.I.record: return ok
        s.R.ob(rule, key, ok, detail + ("" if ok else f"; {show(st)}"[:400]))
        return ok
    # channel semantics
    def create(s, c, st, tx, rx, nm):
        n = st.ghost["nch"]
        s.check(st, "delivery", "unbounded channels", nm in ("unbounded", "channel"), f"a bounded channel may drop or block: {nm}")
        st = st.copy(); st.ghost["nch"] = n + 1
        return [(st, Sym(("el", ("c", "tx"), n), tx), Sym(("el", ("c", "rx"), n), rx))]
    def spawn(s, c, st, clo):
        I = s.I
        if st.ghost["role"] == "ui" and s.base0 is None: s.base0 = st.ghost["nch"]
        x = st.copy(); x.trace = ()
        role = {"ui": "engine", "engine": "looper"}.get(st.ghost["role"])
        if role is None: raise Imprecise("a completer thread starts a thread")
        n = st.copy()
        if role == "looper": n.ghost["nsp"] = st.ghost.get("nsp", ZERO) + 1
        x.ghost = {"nch": st.ghost["nch"], "role": role, "ph": "idle"}
        if role == "engine": x.ghost.update(nsp=ZERO)
        if role == "looper": x.ghost["me"] = st.ghost.get("nsp", ZERO)
        if not I.record:
            s.threads += 1; s.loopers += role == "looper"
            s.R.saw("threads", f"{role} started in {c.fn.path}")
            for y, _, r in I.call_any_val(x, clo, [], c.d, c.t, c.fn):
                ph = y.ghost["ph"]
                s.check(y, "life", f"{role} ends", ph == "closed" or ph == "txfail", f"the {role} thread ends although requests may still come (phase {ph!r})")
        return [n]
    def ncompl(s): return s.I.seq_len(s.compl)
    def settle(s, st, op):
        """Before the next receive: what was received must have been dealt with."""
        role = st.ghost["role"]; ph = st.ghost["ph"]
        if ph == "closed" and op == "recv": s.check(st, "life", f"{role} stops", False, "the thread keeps receiving after the other side is gone")
        if isinstance(ph, Obj) and ph.tag == "got":
            s.check(st, "delivery", f"{role} skips", st.ghost.get("pend") is True or op == "try" or (role == "engine" and st.entails_eq(s.ncompl())), "a request is dropped although no newer one is waiting")
        if isinstance(ph, Obj) and ph.tag == "fwd":
            s.check(st, "delivery", "to every completer", st.entails_eq(ph.f[1] - s.ncompl()), f"a request is forwarded to {ph.f[1]!r} of {s.ncompl()!r} completers")
        if isinstance(ph, Obj) and ph.tag == "done":
            n = s.I.seq_len(ph.f[1])
            s.check(st, "delivery", "results sent", st.entails_eq(n), f"results of a completer are not sent: {n!r} items")
        if role == "engine":
            s.check(st, "delivery", "a thread per completer", st.entails_eq(st.ghost["nsp"] - s.ncompl()), f"{st.ghost['nsp']!r} completer threads for {s.ncompl()!r} completers")
    def recv(s, c, st, ch, op):
        I = s.I; i = sym_idx(ch, "rx"); role = st.ghost["role"]
        if i is None: raise Imprecise(f"receive on {ch!r}")
        if role == "ui": raise Imprecise("the constructor receives")
        b = ("c", ("stream", role)); I.base_ety[b] = I.ty(ch.ty)["args"][0]
        blocking = op != "try_recv"
        if not I.record:
            if role == "engine": s.recv_from.add(i)
            else: s.check(st, "delivery", "own channel", st.entails_eq(i - s.base0 - st.ghost["me"]), f"thread {st.ghost['me']!r} receives on channel {i!r}")
        g = "cur:" + role; cur = st.ghost.get(g, ZERO)
        if blocking: s.settle(st, "recv")
        x = st.copy(); x.ghost[g] = cur + 1; x.ghost.pop("pend", None)
        if not blocking: s.settle(x, "try")
        v = I.elem(b, cur, I.base_ety[b])
        x.ghost["ph"] = Obj("got", v)
        out = [(x, v)]
        if st.ghost.get("pend") is not True:
            e = st.copy()
            if blocking: e.ghost["ph"] = "closed"
            else: e.ghost["pend"] = False
            out.append((e, None))
        return out
    def empty(s, c, st, ch):
        out = []
        for e in (True, False):
            x = st.copy(); x.ghost["pend"] = not e; out.append((x, e))
        return out
    def send(s, c, st, ch, v):
        I = s.I; i = sym_idx(ch, "tx"); role = st.ghost["role"]; ph = st.ghost["ph"]
        if i is None: raise Imprecise(f"send on {ch!r}")
        x = st.copy()
        if role == "engine":
            if not I.record: s.forwards += 1
            got = isinstance(ph, Obj) and ph.tag in ("got", "fwd")
            n = ph.f[1] if got and ph.tag == "fwd" else ZERO
            s.check(st, "delivery", "forwards what was received", got and val_equal(I, st, strip(v), strip(ph.f[0])), f"sends {v!r} in phase {ph!r}")
            s.check(st, "delivery", "forwards to each completer once", got and s.base0 is not None and st.entails_eq(i - s.base0 - n), f"the {n!r}th copy goes to channel {i!r}")
            if got and ph.tag == "got": s.check(st, "delivery", "forwards only the newest", st.ghost.get("pend") is False, "a request is forwarded without having seen that no newer one is waiting")
            if got: x.ghost["ph"] = Obj("fwd", ph.f[0], n + 1)
            y = x.copy(); y.ghost["ph"] = x.ghost["ph"]
            return [(x, True), (y, False)]
        if role == "looper":
            if not I.record: s.sends += 1; s.pkg_to.add(i)
            done = isinstance(ph, Obj) and ph.tag == "done"
            if not s.check(st, "delivery", "sends only results", done, f"sends {v!r} in phase {ph!r}"): return [(x, True), (x.copy(), False)]
            p = strip(v)
            items = [k for k, f in enumerate(p.f) if isinstance(f, Seq)] if isinstance(p, Agg) else []
            stamp = [k for k, f in enumerate(p.f) if isinstance(f, Lin)] if isinstance(p, Agg) else []
            if not s.check(st, "delivery", "package shape", len(items) == 1 and len(stamp) == 1, f"package {p!r}"): return [(x, True)]
            q = p.f[items[0]]; res = ph.f[1]; n = I.seq_len(res)
            if not I.record: s.pkg_items, s.pkg_stamp = items[0], stamp[0]
            s.check(st, "limit", "never empty", st.entails_le(-I.seq_len(q) + 1), f"may send a package without items: {q!r}")
            for cond, want in ((Pred("le", n - LIMIT), n), (Pred("le", -n + LIMIT + 1), Lin.const(LIMIT))):
                for y in st.copy().assume(cond, True):
                    for z, l, _ in I.seq_split(y, res, want):
                        s.check(z, "limit", f"first {LIMIT} items, in order", seq_equal(I, z, q, Seq(q.kind, l, q.ety)), f"sends {q!r} of {res!r}")
            r = strip(ph.f[0]); k = [j for j, t in enumerate(s.fields(r)) if I.proj(st, r, j) == p.f[stamp[0]]]
            s.check(st, "stamp", "package carries its request's stamp", len(k) == 1, f"stamp {p.f[stamp[0]]!r} is not a field of the request")
            if len(k) == 1 and not I.record: s.role(st, "stamp", k[0])
            x.ghost["ph"] = "sent"; y = x.copy(); y.ghost["ph"] = "txfail"
            return [(x, True), (y, False)]
        raise Imprecise("the constructor sends")
    def fields(s, r): return s.I.ty(r.ty)["variants"][0]["fields"] if isinstance(r, Sym) else r.f
    def role(s, st, name, k):
        if name in s.req: s.check(st, "delivery", f"one {name} field", s.req[name] == k, f"{name} is taken from two different fields of the request")
        s.req[name] = k
    def hook(s, c, st, np, args):
        tr = c.f.get("trait") or ""
        if not (tr.split("::")[-1] == "Completer" and c.f["name"] == "complete"): return None
        I = s.I; ph = st.ghost["ph"]; role = st.ghost["role"]
        got = isinstance(ph, Obj) and ph.tag == "got"
        st = st.copy()
        if s.check(st, "delivery", "completes once per request", got and role == "looper", f"complete called by the {role} in phase {ph!r}"):
            r = strip(ph.f[0])
            for name, v in (("input", args[1]), ("cursor", args[2]), ("word", args[3])):
                v = peel(I, st, v)
                k = [j for j, t in enumerate(s.fields(r)) if I.proj(st, r, j) == v]
                if s.check(st, "delivery", f"completer gets the request's {name}", len(k) == 1, f"{name} passed is {v!r}") and not I.record: s.role(st, name, k[0])
            me = strip(args[0]); el = None
            key = me.key if isinstance(me, Sym) else None
            while isinstance(key, tuple) and key and key[0] != "el": key = key[0]
            s.check(st, "delivery", "own completer", s.compl is not None and isinstance(key, tuple) and len(key) == 3 and key[1] == s.compl.segs[0][1] and st.entails_eq(key[2] - st.ghost["me"]), f"thread {st.ghost['me']!r} asks completer {me!r}")
            if not I.record: s.completes += 1
        b = ("c", ("results", st.ghost.get("cur:looper", ZERO))); ety = I.ty(c.dty)["args"][0]; I.base_ety[b] = ety
        q = Seq("vec", [("run", b, ZERO, Lin.atom(("n", b)))], ety)
        if got: st.ghost["ph"] = Obj("done", ph.f[0], q)
        return [(st, q)]

def roles(R, ui, e):
    """The position given to completers as the cursor is the one the requests carry as the cursor."""
    I = ui.I
    if "cursor" not in e.req: return
    try:
        S = Null(); u = Ui.__new__(Ui); u.__init__(S, True); J = u.I
        for ibst, o in u.ib:
            for s, _ in J.call_fn(u.with_ib(u.states[0], ibst, o), u.mut["request"], [MRef(SELF, ()), VRef(o)], 0):
                for p in J.call_fn(s, u.ird["buf_pos"], [VRef(o)], 0):
                    for ev in s.trace:
                        if ev[0] == "send":
                            v = strip(ev[2]).f[e.req["cursor"]]
                            R.ob("delivery", "cursor given as cursor", isinstance(v, Lin) and p[0].entails_eq(v - p[1]), f"completers are given {v!r} as the cursor, which is at {p[1]!r}")
    except (Imprecise, KeyError, IndexError, AttributeError): pass       # C01 decides what requests carry; it reports what it cannot decide

def engine(R):
    R.rule("anchor", "the analysed API exists")
    R.rule("delivery", "each completer has its own thread; the engine forwards the newest request (it passes one over when, and only when, a newer one waits) to each of them exactly once; each thread asks its own completer once, with the request's text, cursor and word position, and sends the results")
    R.rule("stamp", "a result carries the stamp of the request it answers")
    R.rule("limit", "a completer's results are cut to the first 10, in order; empty results are not sent")
    R.rule("life", "the threads stop when, and only when, the other side is gone")
    R.rule("wiring", "requests go to the engine and results come back to the same object")
    R.rule("no-panic", "no panic is reachable in the threads")
    ui = object.__new__(Ui); absint.REGIONS.clear()
    ui.cr, I, ui.tid, ui.mut, ui.rd, ui.ctor = setup("Completions"); ui.I = I
    if not need(R, ui.ctor, "new"): return
    e = Engine(R, ui)
    R.ob("anchor", "threads", e.threads >= 2 and e.loopers >= 1, f"{e.threads} threads, {e.loopers} of them completer threads, found")
    R.ob("anchor", "completer asked", e.completes >= 1, "no call of Completer::complete found"); R.ob("anchor", "results sent", e.sends >= 1, "no results are sent")
    R.ob("delivery", "requests forwarded", e.forwards >= 1, "no request is forwarded")
    R.ob("wiring", "requests", e.tx is not None and e.recv_from == {e.tx[1]}, f"the object sends to channel {e.tx}, the engine receives on {e.recv_from}")
    R.ob("wiring", "results", e.rx is not None and e.pkg_to == {e.rx[1]}, f"the object receives on channel {e.rx}, results go to {e.pkg_to}")
    roles(R, ui, e)
    R.ob("stamp", "fields", set(e.req) == {"input", "cursor", "word", "stamp"} and len(set(e.req.values())) == 4, f"request fields: {e.req}")
    panics(R, I, "no-panic"); finish(R, I)

# ---------------------------------------------------------------- the UI side checks
class Null:
    """Report sink for sub-analyses whose obligations belong to another property."""
    def rule(s, *a): pass
    def ob(s, rule, key, ok, *a): return bool(ok)
    def saw(s, *a): pass
    def floor(s, *a): pass

def ui_setup(R, general=False, fast=True):
    ui = Ui.__new__(Ui); ui.__init__(R, general, fast)
    return ui

def failed(R): return any(not o[2] for o in R.obs)

def two_tier(*tiers):
    """Decide with the cheaper over-approximation first; only what it proves counts, anything else is decided precisely."""
    def run(R):
        for k, t in enumerate(tiers):
            last = k == len(tiers) - 1
            S = type(R)(R.pid, R.level, R.technique); S.tier = getattr(R, "tier", "quick")
            if last: S = R
            try: t(S)
            except Exception:
                if last: raise
                continue
            if last: return
            if S.obs and all(o[2] for o in S.obs):
                R.obs += S.obs; R.rules.update(S.rules); R.assumptions += S.assumptions; R.samples += S.samples
                for k2, v in S.analysed.items(): R.saw(k2, *v)
                return
    return run

def lin_fields(o): return [k for k, f in enumerate(o.f) if isinstance(f, Lin)]

def after_reset(ui, st):
    """[(state, length to replace, neutral text)]: what the object would insert with nothing to offer."""
    out = []
    for x, _ in ui.call(st, "reset"):
        x.ghost = dict(st.ghost)
        for y, r in ui.call(x, "highlight_next"): out.append((y, r.f[0], deref(ui.I, y, r.f[1])))
    return out

def hl(ui, st):
    """[(state, None | index Lin)] of highlighted()."""
    out = []
    for x, r in observe(ui.I, st, ui.rd["highlighted"]):
        if isinstance(r, Agg): out.append((x, r.f[0] if r.var == 1 else None))
        else:
            for y, dv in ui.I.discr(x, r, r.ty):
                out.append((y, ui.I.expand(r, 1).f[0] if dv.c == 1 else None))
    return out

def sep_facts(val): return lambda key: [[(Pred("in", (key, SEPS)), val)]]

def word_cases(ui, st, o):
    """Fix the last separator at or before the cursor: [(name, state, word start index)]; sets REGIONS for the text."""
    I = ui.I
    out = []
    st = st.copy(); st.mem[SELF + ("ibx",)] = o
    for s1, t in I.call_fn(st.copy(), ui.vs["text"], [VRef(o)], 0):
        for s2, p in I.call_fn(s1, ui.ird["ch_pos"], [VRef(o)], 0):
            n = I.seq_len(t); segs = I.norm_segs(s2, t.segs)
            if not segs: out.append(("empty", s2, t, p, ZERO, None)); continue
            if len(segs) != 1 or segs[0][0] != "run" or segs[0][2] != ZERO: raise Imprecise(f"text {t!r}")
            b = segs[0][1]; q = Lin.atom(("v", ("inp", "q")))
            def free(key): return [[]]
            none = {b: lambda k, p=p: [("mid", [k - p], sep_facts(False)), ("hi", [p + 1 - k], free)]}
            some_ = {b: lambda k, p=p, q=q: [("lo", [k - q + 1], free), ("sep", [k - q, q - k], sep_facts(True)), ("mid", [q + 1 - k, k - p], sep_facts(False)), ("hi", [p + 1 - k, q + 1 - k], free)]}
            out.append(("no separator", s2.copy(), t, p, ZERO, none))
            x = s2.copy(); x.cons = x.cons + (-q, q - n + 1)
            x.cons = x.cons + (U(b, q + 1) - U(b, q) - 1, U(b, q) + 1 - U(b, q + 1))    # separators are ASCII
            y = x.copy()
            if y.add_le(q - p + 1): out.append(("separator before", y, t, p, q + 1, some_))
            z = x.copy()
            if z.add_eq(q - p): out.append(("separator at cursor", z, t, p, p, some_))
    return out

def request_(R, general):
    R.rule("anchor", "the analysed API exists")
    R.rule("one", "asking for completions sends exactly one request, to the engine")
    R.rule("input", "the request carries the whole text and the byte position of the cursor")
    R.rule("word", "the request's word position is the byte after the last separator (space, tab, newline, '.', '/', '\\') up to and including the character at the cursor, at most the cursor; 0 when there is none")
    R.rule("fresh-stamp", "every request is stamped with the successor of the previous stamp, which becomes the current one")
    R.rule("clears", "asking drops the previous items and the highlight")
    R.rule("replace", "the word before the cursor is what a completion replaces: its start and length in characters, its text as the neutral choice")
    R.rule("no-panic", "no panic is reachable")
    ui = ui_setup(R, general)
    if not ui.ok: return
    I = ui.I; f = ui.mut["request"]; req = ui.eng.req
    if not R.ob("anchor", "request fields", set(req) == {"input", "cursor", "word", "stamp"}, f"{req}"): return
    I.obl.clear(); wh = rel(f.where()); cfs = None; runs = []
    for pre in ui.states:
        if failed(R): break
        obj = pre.mem[SELF]
        for ibst, o in ui.ib:
            if failed(R): break
            for cname, st, t, p, w, rg in word_cases(ui, ui.with_ib(pre, ibst, o), o):
                if rg: absint.REGIONS.update(rg)
                try:
                    for s, _ in I.call_fn(st.copy(), f, [MRef(SELF, ()), VRef(o)], 0):
                        R.saw("requests", f"{cname}; {obj!r}; {o!r}")
                        sent = [e for e in s.trace if e[0] == "send"]
                        if not R.ob("one", cname, len(sent) == 1 and len([e for e in s.trace if e[0] != "send" and e[0] != "loop"]) == 0, f"events {s.trace!r}", wh): continue
                        ch, v = sent[0][1], strip(sent[0][2])
                        R.ob("one", f"{cname}: to the engine", ch == obj.f[ui.eng.tx[0]], f"sent to {ch!r}", wh)
                        if not R.ob("input", f"{cname}: shape", isinstance(v, Agg) and len(v.f) > max(req.values()), f"{v!r}", wh): continue
                        x = deref(I, s, v.f[req["input"]])
                        R.ob("input", f"{cname}: text", isinstance(x, Seq) and seq_equal(I, s, x, t), f"text sent {x!r}, expected {t!r}", wh)
                        def bytes_upto(i):
                            out = []
                            for y, l, _ in I.seq_split(s, t, i):
                                y = y.copy(); b = I.seq_bytes(Seq(t.kind, l, t.ety))
                                if t.segs: u = U(t.segs[0][1], i); y.cons = y.cons + (u - b, b - u)
                                out.append((y, b))
                            return out
                        for y, b in bytes_upto(p):
                            c = v.f[req["cursor"]]
                            R.ob("input", f"{cname}: cursor", isinstance(c, Lin) and y.entails_eq(c - b), f"cursor sent {c!r}, expected {b!r}; {show(y)}", wh)
                        for y, b in bytes_upto(w):
                            c = v.f[req["word"]]
                            R.ob("word", cname, isinstance(c, Lin) and y.entails_eq(c - b), f"word position sent {c!r}, expected {b!r}; {show(y)}", wh)
                        stamp = v.f[req["stamp"]]; post = s.mem[SELF]
                        if isinstance(stamp, Lin):
                            js = {k for k in lin_fields(post) if s.entails_eq(post.f[k] - stamp)}
                            cfs = js if cfs is None else cfs & js
                            runs.append((cname, s, obj, stamp))
                        else: R.ob("fresh-stamp", cname, False, f"stamp {stamp!r}", wh)
                        for y, r in ui.items(s): R.ob("clears", f"{cname}: items", isinstance(r, Seq) and y.entails_eq(I.seq_len(r)), f"items {r!r}", wh)
                        for y, h in hl(ui, s): R.ob("clears", f"{cname}: highlight", h is None, f"highlight {h!r}", wh)
                        for y, r in observe(I, s, ui.rd["has"]): R.ob("clears", f"{cname}: has", r is False or (isinstance(r, Pred) and y.decide(r) is False), f"has() {r!r}", wh)
                        for y, r in observe(I, s, ui.rd["word_pos"]): R.ob("replace", f"{cname}: start", isinstance(r, Lin) and y.entails_eq(r - w), f"start {r!r}, expected {w!r}; {show(y)}", wh)
                        for y, n, txt in after_reset(ui, s):
                            R.ob("replace", f"{cname}: length", isinstance(n, Lin) and y.entails_eq(n - (p - w)), f"length {n!r}, expected {p - w!r}; {show(y)}", wh)
                            for z, want in I.seq_slice(y, t, w, p): R.ob("replace", f"{cname}: text", isinstance(txt, Seq) and seq_equal(I, z, txt, Seq(txt.kind, want.segs, txt.ety)), f"neutral text {txt!r}, expected {want!r}; {show(z)}", wh)
                finally: absint.REGIONS.clear()
    good = False
    for k in sorted(cfs or ()):
        good = True
        for cname, s, obj, stamp in runs:
            d = stamp - obj.f[k]
            bits = [I.int_bits(ui.cr.types[ui.tid]["variants"][0]["fields"][k]["ty"])]
            top = MAXU.get(bits[0], 0)
            if not (s.entails_eq(d - 1) or (s.entails_eq(stamp) and s.entails_eq(obj.f[k] - top))): good = False; R.saw("stamps not fresh", f"{cname}: {stamp!r} after {obj.f[k]!r}"); break
        if good: break
    R.ob("fresh-stamp", "successor", good, f"no counter of the object becomes the stamp of each request, one more than the last: {R.analysed.get('stamps not fresh')}", wh)
    R.floor("anchor", "requests", 4)
    panics(R, I, "no-panic"); finish(R, I)

def current_stamp(ui):
    """Index of the object's field holding the stamp of the last request (found by making requests)."""
    I = ui.I; cand = None
    for pre in ui.states[:2]:
        for ibst, o in ui.ib[:1]:
            for s, _ in I.call_fn(ui.with_ib(pre, ibst, o), ui.mut["request"], [MRef(SELF, ()), VRef(o)], 0):
                for e in s.trace:
                    if e[0] != "send": continue
                    v = strip(e[2]).f[ui.eng.req["stamp"]]; post = s.mem[SELF]
                    if not isinstance(v, Lin) or s.entails_eq(v): continue
                    js = {k for k in lin_fields(post) if s.entails_eq(post.f[k] - v)}
                    cand = js if cand is None else cand & js
    return sorted(cand or ())

def recv_(R, general, ui=None):
    R.rule("anchor", "the analysed API exists")
    R.rule("fresh", "receiving appends the items of exactly the arrived results that answer the latest request, in arrival order, to the items on offer; all others are dropped")
    R.assumptions.append("an arrived answer has at least one item (rule `limit` of C04, checked there on the code that sends it)")
    R.rule("told", "receiving reports whether any such result arrived")
    R.rule("drain", "receiving never blocks and takes everything that has arrived")
    R.rule("frame", "receiving changes neither the highlight nor what would be replaced; reset drops items and highlight; looking changes nothing")
    R.rule("no-panic", "no panic is reachable")
    if ui is None: ui = ui_setup(R, general)
    if not ui.ok: return
    I = ui.I; f = ui.mut["recv"]; wh = rel(f.where())
    if not R.ob("anchor", "result fields", ui.eng.pkg_stamp is not None and "stamp" in ui.eng.req, "the results' stamp was not found"): return
    cfs = current_stamp(ui)
    if not R.ob("anchor", "current stamp", len(cfs) >= 1, "no field of the object holds the latest request's stamp"): return
    cf = cfs[0]; ch = ui.rxbase(); g = "cur:" + kstr(ch)
    pt = I.ty(next(fl["ty"] for fl in ui.cr.types[ui.tid]["variants"][0]["fields"] if (I.adt_path(fl["ty"]) or "").endswith("::Receiver")))["args"][0]
    I.obl.clear()
    first = Lin.atom(("v", ("inp", "first")))
    for pre in ui.states:
        if failed(R): break
        obj = pre.mem[SELF]; cur = obj.f[cf]
        def stamp(k): return I.proj(pre, I.elem(ch, k, pt), ui.eng.pkg_stamp)
        def cond(st, k):
            d = stamp(k) - cur
            if st.entails_eq(d): return True
            if st.entails_le(d + 1) or st.entails_le(-d + 1): return False
            return None
        def facts(val): return lambda key: [[(Pred("eq", stamp(key[2]) - cur), val)]]
        def free(key): return [[]]
        I.cats = {ch: (ui.items_fld(), cond)}
        for some_ in (False, True):
            if some_: absint.REGIONS[ch] = lambda k: [("before", [k - first + 1], facts(False)), ("first", [k - first, first - k], facts(True)), ("after", [first + 1 - k], free)]
            else: absint.REGIONS[ch] = lambda k: [("none", [], facts(False))]
            st = pre.copy(); st.cons = st.cons + (-first,)
            label = f"{'some' if some_ else 'no'} current result"
            for s0, it0 in ui.items(st):
                for s, r in I.call_fn(s0.copy(), f, [MRef(SELF, ())], 0):
                    R.saw("receptions", f"{label}; {obj!r}")
                    c1 = s.ghost.get(g, ZERO)
                    R.ob("drain", label, s.ghost.get("drained") is True, f"returns although more results may be waiting; {show(s)}", wh)
                    R.ob("drain", f"{label}: no blocking", "blocking" not in s.ghost, "receives with a blocking call", wh)
                    ev = [e for e in s.trace if e[0] != "loop"]
                    R.ob("frame", f"{label}: silent", not ev, f"events {ev!r}", wh)
                    cases = [(s, False)]
                    if some_:
                        cases = []
                        a = s.copy()
                        if a.add_le(c1 - first): cases.append((a, False))
                        b = s.copy()
                        if b.add_le(first + 1 - c1): cases.append((b, True))
                    for x, hit in cases:
                        want = it0.segs + ((("cat", ch, first, c1),) if hit else ())
                        for y, it1 in ui.items(x):
                            R.ob("fresh", f"{label}: {'taken' if hit else 'not taken'}", seq_equal(I, y, it1, Seq("vec", want, it0.ety)), f"items become {it1!r}, expected {Seq('vec', want, it0.ety)!r}; {show(y)}", wh)
                        for y, v in x.copy().split(r) if I.is_bool(r) else []:
                            R.ob("told", f"{label}: {'taken' if hit else 'not taken'}", v == hit, f"returns {v} {show(y)}", wh)
                    for y, h in hl(ui, s.copy()):
                        for z, h0 in hl(ui, y_with(y, obj)):
                            R.ob("frame", f"{label}: highlight", (h is None) == (h0 is None) and (h is None or z.entails_eq(h - h0)), f"highlight {h0!r} becomes {h!r}", wh)
                    for y, n, txt in after_reset(ui, s):
                        for z, n0, txt0 in after_reset(ui, y_with(y, obj)):
                            R.ob("frame", f"{label}: replacement", z.entails_eq(n - n0) and seq_equal(I, z, txt, txt0), f"replaces {n!r} with {txt!r}, before {n0!r} with {txt0!r}", wh)
                    for y, wp in observe(I, s.copy(), ui.rd["word_pos"]):
                        for z, w0 in observe(I, y_with(y, obj), ui.rd["word_pos"]): R.ob("frame", f"{label}: position", z.entails_eq(wp - w0), f"{wp!r} was {w0!r}", wh)
            absint.REGIONS.clear()
        I.cats = {ch: (ui.items_fld(), None)}
        for s, _ in ui.call(pre, "reset"):
            for y, it1 in ui.items(s): R.ob("frame", "reset: items", y.entails_eq(I.seq_len(it1)), f"items {it1!r}", rel(ui.mut["reset"].where()))
            for y, h in hl(ui, s): R.ob("frame", "reset: highlight", h is None, f"highlight {h!r}", rel(ui.mut["reset"].where()))
        for n, fn in sorted(ui.rd.items()):
            if n in ("has", "items", "highlighted", "word_pos"):
                for s, r in observe(I, pre.copy(), fn):
                    R.ob("frame", f"{n}: pure", s.mem[SELF] == obj, "changes the object", rel(fn.where()))
                    if n == "has":
                        for y, it in ui.items(s):
                            for z, v in y.split(r): R.ob("frame", "has: items", z.entails_eq(I.seq_len(it)) if not v else z.entails_le(-I.seq_len(it) + 1), f"has() is {v} with items {it!r}", rel(fn.where()))
    R.floor("anchor", "receptions", 2)
    panics(R, I, "no-panic"); finish(R, I)

def y_with(st, obj):
    st = st.copy(); st.mem[SELF] = obj
    return st

def highlight_(R, fast):
    R.rule("anchor", "the analysed API exists")
    R.rule("cycle", "forward: nothing -> first -> ... -> last -> nothing; backward the reverse")
    R.rule("text", "the text offered is the highlighted item's, or the original word when nothing is highlighted or there are no items")
    R.rule("length", "the length to replace is the length in characters of what was last inserted (the original word at first)")
    R.rule("frame", "highlighting changes neither the items, nor the position, nor the original word")
    R.rule("arrivals", "receiving results only appends items: it changes neither the highlight nor what would be replaced")
    R.rule("no-panic", "no panic is reachable")
    ui = ui_setup(R, False, fast)
    if not ui.ok: return
    # the object states assume that receiving only appends items
    S = type(R)(R.pid, R.level, R.technique); reach = ui.states
    if fast: st = State(); st.mem[SELF] = ui.any_object(); ui.states = [st]
    recv_(S, fast, ui); ui.states = reach
    R.ob("arrivals", "recv", bool(S.obs) and all(o[2] for o in S.obs), "; ".join(f"{o[0]}:{o[1]} {o[3][:300]}" for o in S.obs if not o[2])[:900], rel(ui.mut["recv"].where()))
    ui.reset(); I = ui.I; I.obl.clear()
    vi = None
    for pre in ui.states:
        if failed(R): break
        for name in ("highlight_next", "highlight_prev"):
            f = ui.mut[name]; wh = rel(f.where())
            for s0, items in ui.items(pre.copy()):
                n = I.seq_len(items)
                for s1, h0 in hl(ui, s0):
                    obj = s1.mem[SELF]
                    for s2, n0, w0 in after_reset(ui, s1):
                        s2 = y_with(s2, obj); s2.trace = ()
                        for s3, r in ui.call(s2, name):
                            ln, txt = r.f[0], deref(I, s3, r.f[1])
                            R.saw("steps", f"{name}; {obj!r}")
                            R.ob("length", f"{name}", isinstance(ln, Lin) and s3.entails_eq(ln - n0), f"length {ln!r}, expected {n0!r}; {show(s3)}", wh)
                            R.ob("frame", f"{name}: silent", not [e for e in s3.trace if e[0] != "loop"], f"{s3.trace!r}", wh)
                            # which item is to be highlighted
                            fwd = name == "highlight_next"
                            if h0 is None: cases = [("no items", Pred("eq", n), None, True), ("from nothing", Pred("le", -n + 1), ZERO if fwd else n - 1, False)]
                            elif fwd: cases = [("no items", Pred("eq", n), None, True), ("from last", Pred("eq", h0 - n + 1), None, False), ("from item", Pred("le", h0 - n + 2), h0 + 1, False), ("outside", Pred("le", n - h0), "out", False)]
                            else: cases = [("no items", Pred("eq", n), None, True), ("from first", Pred("eq", h0), None, False), ("from item", Pred("le", -h0 + 1), h0 - 1, False), ("outside", Pred("le", n - h0), "out", False)]
                            for cname, cond, want, empty in cases:
                                c = cond if not cond.a.is_const() else (cond.a.c == 0 if cond.op == "eq" else cond.a.c <= 0)
                                for s4 in s3.copy().assume(c, True):
                                    if s4.infeasible(): continue
                                    if not empty:
                                        if not s4.add_le(-n + 1): continue
                                    if not isinstance(want, str) and want is not None and not empty and h0 is not None and not s4.add_le(h0 - n + 1): continue
                                    key = f"{name} {cname}"
                                    if want == "out": R.ob("cycle", key, False, f"highlight {h0!r} of {n!r} items; {show(s4)}", wh); continue
                                    if not empty:
                                        for s5, h1 in hl(ui, s4.copy()):
                                            R.ob("cycle", key, (h1 is None) == (want is None) and (want is None or s5.entails_eq(h1 - want)), f"highlight {h0!r} -> {h1!r}, expected {want!r} of {n!r}; {show(s5)}", wh)
                                    if want is None: exp = [(s4.copy(), w0)]
                                    else:
                                        exp = []
                                        for s5, e in I.seq_get(s4.copy(), items, want):
                                            if vi is None:
                                                fs = I.ty(items.ety)["variants"][0]["fields"]
                                                vi = next((k for k, x in enumerate(fs) if x["name"] == "value"), None)
                                                if not R.ob("anchor", "item value", vi is not None, "no field `value`"): return
                                            exp.append((s5, I.proj(s5, e, vi)))
                                    for s5, e in exp:
                                        R.ob("text", key, isinstance(txt, Seq) and seq_equal(I, s5, txt, e), f"offers {txt!r}, expected {e!r}; {show(s5)}", wh)
                                        for s6, it1 in ui.items(s5.copy()): R.ob("frame", f"{key}: items", seq_equal(I, s6, it1, items), f"items become {it1!r}", wh)
                                        for s6, n1, w1 in after_reset(ui, s5):
                                            R.ob("length", f"{key}: next", s6.entails_eq(n1 - I.seq_len(e)), f"next length {n1!r}, expected {I.seq_len(e)!r}; {show(s6)}", wh)
                                            R.ob("frame", f"{key}: word", seq_equal(I, s6, w1, w0), f"original word becomes {w1!r}, was {w0!r}", wh)
                                        for s6, p1 in observe(I, s5.copy(), ui.rd["word_pos"]):
                                            for s7, p0 in observe(I, y_with(s6, obj), ui.rd["word_pos"]): R.ob("frame", f"{key}: position", s7.entails_eq(p1 - p0), f"{p0!r} -> {p1!r}", wh)
    R.floor("anchor", "steps", 4)
    panics(R, I, "no-panic"); finish(R, I)

request = two_tier(lambda R: request_(R, True), lambda R: request_(R, False))
recv = two_tier(lambda R: recv_(R, True), lambda R: recv_(R, False))
def highlight(R): highlight_(R, True)
