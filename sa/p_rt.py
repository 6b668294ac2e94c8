"""Running batches (R01) and waiting for computations (X07)."""
import re
from lin import Lin
import absint, models
from absint import *
from models import okv, peel, norm_path
from core import crate, rel
from p_history import finish
from p_io import Loose, Files, strip_closure
from graph import graph, norm

BAT = "rt/bat.rs"
RUN_DEF, RUN_EXPR = "process_definition", "process_expression"

class Batch(Files):
    """Monitor: what is known about cancellation and failures when an item is started."""
    def __init__(s, R, I, files):
        super().__init__(R, I, files); s.runs = {}
    def leads(s, f):
        if not hasattr(s, "_leads"):
            g = graph(); hot = set()
            for k, n in g.nodes.items():
                if n.crate == "ogma" and any(n.file.endswith(x) for x in s.files) and any(b["t"]["k"] == "call" and b["t"].get("f") and (b["t"]["f"]["name"] in (RUN_DEF, RUN_EXPR, "cancelled", "flip_on", "get") ) for f in n.fns for b in f.blocks): hot.add(k)
            q = list(hot)
            while q:
                for r in g.rev.get(q.pop(), ()):
                    if r not in hot: hot.add(r); q.append(r)
            s._leads = hot
        return f"{f.crate.name}::{norm(f.path)}" in s._leads
    def hook(s, c, st, np, args):
        I = s.I; nm = c.f["name"]; where = rel(c.fn.where(c.sp)) if c.fn and c.sp else ""
        if nm in (RUN_DEF, RUN_EXPR) and (np.startswith(("lang::", "rt::", "ogma::"))):
            return s.run(c, st, np, args, nm, where)
        if nm == "cancelled" and "Progress" in np:
            return s.test(c, st, "c")
        if nm == "get" and "Switch" in np: return s.test(c, st, "f")
        if nm == "flip_on" and "Switch" in np:
            y = st.copy(); y.ghost["noted"] = True
            return [(y, UNIT)]
        f = s.local(c)
        if f is not None:
            if any(f.file.endswith(x) for x in s.files) and (s.leads(f) or f.closure_of): return None
            if re.search(r"core/src/(result|option|ops/(try_trait|function|control_flow)|convert/mod|bool)\.rs$", f.file): return None
            return s.opaque(c, st, args)
        if nm in ("call", "call_mut", "call_once") or np.endswith(("Fn::call", "FnMut::call_mut", "FnOnce::call_once")): return None
        if nm in ("deref", "as_str", "clone", "as_ref", "borrow", "to_string", "to_owned") and args and isinstance(peel(I, st, args[0]), Seq): return None
        if nm == "index_mut" and "Vec" in np and len(args) == 2:
            k = s.index_of(args[1])
            if not I.record: s.R.saw("places that store an outcome", where)
            s.check(st, c, "place", f"{strip_closure(c.fn.path)} stores", k is not None and (not st.ghost.get("item") or kstr(k + (1,)) in st.ghost["item"]), "an outcome is stored at an index which is not its item's")
        return s.opaque(c, st, args)
    def test(s, c, st, what):
        a = st.copy(); b = st.copy(); a.ghost[what] = True; b.ghost[what] = False
        return [(a, True), (b, False)]
    def noted(s, st):
        """What was run last is known not to have failed, or the failure has been noted."""
        k = st.ghost.get("result")
        if k is None or st.ghost.get("noted") is True: return True
        v = st.facts.get(("var", k))
        return v is not None and v != (s.failed if st.ghost.get("outcome") else 1)
    def settle(s, st):
        if s.noted(st): st.ghost["result"] = None; st.ghost["noted"] = None
    def index_of(s, v):
        """T when v is the first part of the pair T."""
        k = v.t[0][0][1] if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0][0] == "s" else None
        return k[:-1] if isinstance(k, tuple) and len(k) >= 3 and k[-2] == "f" and k[-1] == 0 else None
    def passed(s, c, st, f, r=None, extra=()):
        r = peel(s.I, st, r) if r is not None else None
        if isinstance(r, Agg) and len(r.f) >= 2 and s.I.ty(f.locals[0]["ty"])["k"] == "tuple" and "Outcome" in s.I.ty(f.locals[0]["ty"])["s"]:
            s.R.saw("outcomes passed on", rel(f.where()))
            k = s.index_of(r.f[0]); its = [repr(x.f[0]) for x in extra if isinstance(x, Agg) and x.f]
            s.R.ob("place", f"{strip_closure(f.path)} index", repr(r.f[0]) in its, f"an outcome is passed on with index {r.f[0]!r}, which is not the item's"[:300], rel(f.where()))
            if st.ghost.get("item"): s.R.ob("place", f"{strip_closure(f.path)} item", k is not None and kstr(k + (1,)) in st.ghost["item"], "an item's outcome is passed on with the index of another", rel(f.where()))
            v = next((x for x in r.f[1:] if x is not None and "Outcome" in s.tyname(x)), None)
            if st.ghost.get("item"): s.R.ob("place", f"{strip_closure(f.path)} outcome", isinstance(v, Sym) and v.key == st.ghost.get("result"), "something else than the item's outcome is passed on", rel(f.where()))
            elif isinstance(v, Agg): s.R.ob("place", f"{strip_closure(f.path)} not run", v.var in s.unrun, "an item which was not run is passed on as run", rel(f.where()))
        if st.ghost.get("result") is not None: s.R.ob("noted", f"{strip_closure(f.path)} passes on an outcome", s.noted(st), "the outcome of an item is passed on although its failure may not have been noted", rel(f.where()))
        s.settle(st); st.ghost["item"] = None
    def run(s, c, st, np, args, nm, where):
        I = s.I; g = st.ghost
        if not I.record: s.runs[(c.fn.path, nm)] = where; s.R.saw("places that start an item", f"{where} {nm}")
        key = f"{strip_closure(c.fn.path)} {nm}"
        s.check(st, c, "cancelled", key, g.get("c") is False, f"an item is started with {nm} although since the previous item was started it was not seen that the batch is not cancelled")
        ff = s.ff(st)
        s.check(st, c, "failure", key, g.get("f") is False or ff is False, f"an item is started with {nm} in a batch that may fail fast without seeing that no item has failed")
        s.check(st, c, "noted", key, s.noted(st), f"an item is started with {nm} although the failure of the one before may not have been noted")
        if nm == RUN_DEF: s.check(st, c, "order", key, g.get("expr") is not True, "a definition is run after an expression")
        y = st.copy(); r = I.mkval(I.fresh("result"), c.dty)
        y.ghost["c"] = None; y.ghost["f"] = None; y.ghost["noted"] = None; y.ghost["outcome"] = None; y.ghost["result"] = r.key if isinstance(r, Sym) else None
        if nm == RUN_EXPR: y.ghost["expr"] = True
        y.ghost["item"] = repr(args)
        for a in args:
            for m in mrefs(a):
                try: I.havoc(y, m)
                except Imprecise: pass
        return [(y, r)]
    def opaque(s, c, st, args, what=None):
        t = s.I.ty(c.dty); out = super().opaque(c, st, args, what)
        if t["k"] == "ref" and t.get("mut"):
            key = ("sink", c.dty); s.I.htypes[("H", key)] = t["to"]; out = [(x, MRef(("H", key), ())) for x, _ in out]
            for x, _ in out: x.mem.pop(("H", key), None)
        for a in args:      # the outcome of what has just been run
            a = peel(s.I, st, a)
            if isinstance(a, Sym) and st.ghost.get("result") == a.key and t.get("path", "").endswith("::Outcome"):
                for x, v in out:
                    if isinstance(v, Sym): x.ghost["result"] = v.key; x.ghost["outcome"] = True
        return out
    def tyname(s, v): return s.I.ty(v.ty)["s"] if isinstance(v, (Sym, Agg)) and v.ty is not None else ""
    def ff(s, st): return st.decide(Pred("atom", ("ff",)))

def batch(R):
    R.rule("anchor", "the code that runs a batch is found")
    R.rule("cancelled", "an item is started only where, since the item before it was started, the batch has been seen not to be cancelled")
    R.rule("failure", "in a batch that fails fast an item is started only where, since the item before it was started, it has been seen that none has failed")
    R.rule("noted", "an item that fails is noted as a failure before the next one is started, and before its outcome is passed on")
    R.rule("place", "an outcome is stored, or passed on, with the index of the item it belongs to; an item which was not run is not passed on as run")
    R.rule("order", "definitions are run one after the other, before any expression")
    absint.REGIONS.clear()
    cr = crate("ws", "ogma"); I = Loose(cr); H = Batch(R, I, (BAT,)); I.call_hook = H.hook; I.loose_hook = H.loose; I.back_hook = H.settle; I.lost = {"expr": True, "result": "?"}
    oc = next((a for a in cr.types if a["k"] == "adt" and a.get("path", "").endswith("rt::bat::Outcome")), None)
    H.failed = next((i for i, v in enumerate((oc or {}).get("variants") or ()) if v["name"] == "Failed"), None)
    H.unrun = {i for i, v in enumerate((oc or {}).get("variants") or ()) if v["name"] in ("Outstanding", "Cancelled")}
    R.ob("anchor", "Outcome::Failed", H.failed is not None, "the outcome of a failed item is not found")
    roots = [f for f in cr.fns if f.local and f.file.endswith(BAT) and not f.closure_of and H.leads(f) and "test" not in f.path and any("rt::bat::Batch" in cr.tys(f.locals[k]["ty"]) for k in range(1, f.nargs + 1))]
    R.ob("anchor", "process", len(roots) >= 1, "no function runs a Batch")
    for f in roots:
        R.saw("functions that run a batch", f.path)
        args = []
        for k in range(1, f.nargs + 1):
            ty = f.locals[k]["ty"]; t = I.ty(ty)
            if t["k"] == "ref" and t["s"].endswith("rt::bat::Batch"):
                b = t["to"]; fs = I.ty(b)["variants"][0]["fields"]
                R.ob("anchor", "fail_fast", any(x["name"] == "fail_fast" for x in fs), "the batch's fail_fast is not found")
                args.append(VRef(Agg(b, None, [Pred("atom", ("ff",)) if x["name"] == "fail_fast" else I.mkval(("batch", x["name"]), x["ty"]) for x in fs])))
            else: args.append(I.mkval(("arg", f.path, k), ty))
        for st, r in I.call_fn(State(), f, args, 0): H.passed(None, st, f)
    R.floor("anchor", "places that start an item", 2)
    finish(R, I)
    return H

# ---------------------------------------------------------------- waiting
import cfg as _cfg
WAIT = {"recv", "recv_timeout", "recv_deadline", "iter", "into_iter", "select", "select_timeout", "next", "wait", "wait_timeout", "recv_ref", "blocking_recv"}
SENDER = re.compile(r"(?:mpsc|channel|flavors)\S*::(Sender|SyncSender)<")
def deref_ty(cr, i):
    n = 0
    while cr.ty(i)["k"] == "ref": i = cr.ty(i)["to"]; n += 1
    return i, n
def chan_elem(cr, i, names):
    """T of a Sender<T> or Receiver<T>, behind how many references; None for other types."""
    i, n = deref_ty(cr, i); t = cr.ty(i)
    if t["k"] == "adt" and t["path"].split("::")[-1] in names and re.search(r"mpsc|channel|flume", t["path"]):
        a = [x for x in t.get("args", ()) if isinstance(x, int)]
        return cr.tys(a[0]) if a else "?", n
    return None
RX = ("Receiver", "Iter", "IntoIter"); TX = ("Sender", "SyncSender")

def calls_of(f): return [(i, b["t"]) for i, b in enumerate(f.blocks) if not b.get("c") and b["t"]["k"] == "call" and b["t"].get("f")]

def is_spawn(t): return t["f"]["name"] in ("spawn", "spawn_unchecked", "spawn_fifo") or t["f"]["name"].startswith("spawn_")

def waiting(R):
    R.rule("anchor", "the places where one thread waits for another are found")
    R.rule("flag", "a loop which looks again and again whether another thread is done also ends when that thread has ended without saying so")
    R.rule("sender", "a thread waiting for a message from a thread it started keeps no sender of that channel itself, so that the waiting ends when the other thread ends, however it ends")
    g = graph(); seen = set()
    bodies = []
    for k, n in g.nodes.items():
        f = n.fns[0]; bodies.append((k, n, f))
    by_path = {(f.crate.name, f.path): f for _, _, f in bodies}
    for k, n, f in bodies:
        R.saw("functions", k)
        cs = calls_of(f)
        # sleeping loops
        sl = [i for i, t in cs if t["f"]["name"] in ("sleep", "sleep_ms", "yield_now", "park_timeout", "spin_loop", "park") and ("thread" in t["f"]["path"] or "hint" in t["f"]["path"])]
        if sl:
            C = _cfg.Cfg(f)
            for b in sl:
                loops = [h for h, body in C.loops.items() if b in body]
                if not loops: continue
                body = C.loops[min(loops, key=lambda h: len(C.loops[h]))]
                ex = exits(C, f, body)
                w = rel(f.where()); R.saw("loops that sleep", f"{k} at {w}")
                if not ex: continue      # a service: never waits for anything to end
                R.ob("flag", f"{strip_closure(k)} sleeping", any(ends(f, e) for e in ex), f"the loop ends only when something is flagged; nothing ends it when the other thread has panicked", w)
        # receiving
        for i, t in cs:
            if t["f"]["name"] not in WAIT or not t["atys"]: continue
            r = chan_elem(f.crate, t["atys"][0], RX)
            if not r: continue
            R.saw("places that wait for a message", f"{k} {t['f']['name']}")
            chain = [f]
            while chain[-1].closure_of:
                p = by_path.get((f.crate.name, chain[-1].closure_of))
                if p is None: break
                if thread_closure(p, chain[-1]): break      # a thread of its own: the channel comes from elsewhere
                chain.append(p)
            made = [c for c in chain if any(t2["dty"] is not None and makes(c.crate, t2["dty"], r[0]) for _, t2 in calls_of(c))]
            if not made: continue
            w = f.where(t.get("sp")) if t.get("sp") else f.where()
            R.saw("waits for a channel made in the same place", f"{k} {rel(w)}")
            seen.add(k)
            for c in chain[:chain.index(made[0]) + 1]:
                kept = keeps(c, r[0], i if c is f else None)
                R.ob("sender", f"{strip_closure(k)} waits", not kept, f"while waiting for a message the waiting thread still holds the channel's sender ({kept}): if the other thread panics, the waiting never ends", rel(w))
    R.floor("anchor", "loops that sleep", 2); R.floor("anchor", "places that wait for a message", 3)
    R.assumptions += ["threads end or panic in finite time unless they are services; a channel without senders ends every wait on it (std and crossbeam)"]

def exits(C, f, body):
    """Switches inside the loop with a way out of it that leads to a normal return."""
    ret = {b for b in C.reach if f.blocks[b]["t"]["k"] == "return"}; back = set(ret); q = list(ret)
    while q:
        for p in C.pred[q.pop()]:
            if p not in back: back.add(p); q.append(p)
    return [b for b in body if any(x not in body and x in back for x in C.succ[b])]

def ends(f, b):
    """The switch at the end of b looks whether a thread has finished, or what a closed channel says."""
    from p_flow import defs_of
    t = f.blocks[b]["t"]
    if t["k"] != "switch": return False
    work = [t.get("a") or t.get("on") or t.get("d")]; seen = set()
    while work:
        o = work.pop()
        if not isinstance(o, dict) or o.get("o") not in ("copy", "move"): continue
        v = o["p"][0]
        if v in seen: continue
        seen.add(v)
        for d in defs_of(f, v):
            if d[0] == "c":
                nm = d[1]["f"]["name"] if d[1].get("f") else ""
                if nm == "is_finished" or nm in ("try_recv", "recv_timeout", "join"): return True
                if nm == "not": work += d[1]["args"]
            else:
                work += _cfg.rv_operands(d[1])
                if d[1]["r"] in ("discr", "ref"): work.append({"o": "copy", "p": d[1]["p"]})
    return False

def makes(cr, i, elem):
    t = cr.ty(i)
    return t["k"] == "tuple" and any(chan_elem(cr, e, TX) == (elem, 0) for e in t["elems"])

def thread_closure(p, clo):
    """The closure `clo` written in p is handed to something that starts a thread."""
    for _, t in calls_of(p):
        if is_spawn(t):
            for a in t["atys"]:
                j, _ = deref_ty(p.crate, a); ty = p.crate.ty(j)
                if ty["k"] == "closure" and norm(ty["path"]) == norm(clo.path): return True
    return False

def keeps(c, elem, at):
    """A sender of the channel which this body still holds."""
    cr = c.crate
    if c.closure_of:
        env, _ = deref_ty(cr, c.locals[1]["ty"]); ups = cr.ty(env).get("upvars") or []
        for k, u in enumerate(ups):
            s = chan_elem(cr, u, TX)
            if s and s[0] == elem:
                if s[1] > 0: return "borrowed from the function around it"
                if not moved(c, 1, k): return "captured"
    for v, l in enumerate(c.locals):
        if v == 0 or 1 <= v <= c.nargs: continue
        if chan_elem(cr, l["ty"], TX) == (elem, 0) and not moved(c, v, None): return "its own"
    return None

def moved(c, v, field):
    """Moved out of (or dropped) somewhere in the body."""
    def hit(o): return isinstance(o, dict) and o.get("o") == "move" and o["p"][0] == v and (field is None and not o["p"][1] or field is not None and any(e != "*" and e[0] == "f" and e[1] == field for e in o["p"][1]))
    for b in c.blocks:
        if b.get("c"): continue
        for s in b["s"]:
            if s["k"] == "=" and any(hit(o) for o in _cfg.rv_operands(s["r"])): return True
        if b["t"]["k"] == "call" and any(hit(o) for o in b["t"]["args"]): return True
    return False
