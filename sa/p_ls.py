"""The language server: replies (L03), document edits (L02), positions (L01)."""
import re
from lin import Lin
import absint, models
from absint import *
from models import okv, peel, norm_path
from core import crate, rel
from p_history import finish
from p_io import Loose, Files, strip_closure

SRV = "ogma-ls/server/mod.rs"
STD = re.compile(r"core/src/(result|option|ops/(try_trait|function|control_flow)|convert/mod|bool)\.rs$")
SAME = {"clone", "deref", "as_ref", "borrow", "as_str", "to_owned", "to_string", "into_owned", "as_deref", "deref_mut", "as_mut", "into_boxed_str", "cloned", "copied"}

class Ls(Files):
    def leads(s, f): return any(f.file.endswith(x) for x in s.files)
    def ident(s, st, v):
        v = peel(s.I, st, v)
        while isinstance(v, Obj) and v.tag in ("arc", "box", "cow"): v = peel(s.I, st, v.f[0])
        if isinstance(v, Sym): return repr(v.key)
        if isinstance(v, Seq): return repr(v.k())
        return repr(v)
    def tname(s, ty):
        t = s.I.ty(ty)
        while t["k"] == "ref": t = s.I.ty(t["to"])
        return t
    def path(s, ty): return s.tname(ty).get("path") or ""
    def field(s, st, v, name):
        """Field of a struct value, by name."""
        fs = s.I.ty(v.ty)["variants"][0]["fields"]
        k = next((i for i, f in enumerate(fs) if f["name"] == name), None)
        return None if k is None else s.I.proj(st, v, k)
    def val(s, st, v):
        v = peel(s.I, st, v)
        while isinstance(v, Obj) and v.tag in ("arc", "box", "cow"): v = peel(s.I, st, v.f[0])
        return v
    def variant(s, st, v):
        if isinstance(v, Agg): return v.var
        if isinstance(v, Sym): return st.facts.get(("var", v.key))
        return None
    def vname(s, ty, n): return next((i for i, v in enumerate(s.I.ty(ty)["variants"]) if v["name"] == n), None)
    def same(s, c, st, args): return [(st, s.wrap(c.dty, peel(s.I, st, args[0])))]

class Only:
    """Passes on what belongs to the given rules."""
    def __init__(s, R, H): s.R = R; s.H = H
    def ob(s, rule, *a): return s.R.ob(rule, *a) if rule in s.H.rules | {"anchor"} else None
    def __getattr__(s, k): return getattr(s.R, k)

class Replies(Ls):
    """Monitor: the message being handled, what was looked up and called for it, what was sent."""
    def __init__(s, R, I, files): super().__init__(R, I, files); s.R = Only(R, s)
    def reset(s, st):
        for k in ("msg", "found", "handler", "out"): st.ghost[k] = None
        st.ghost["ans"] = 0; st.ghost["ran"] = 0; st.ghost["thread"] = None
    def settle(s, st):
        """The message received last has been dealt with."""
        m = st.ghost.get("msg")
        if m is None: return s.reset(st)
        v = st.facts.get(("var", m.key)); w = s.where
        if not s.I.record:
            rq = s.vname(m.ty, "Request"); nt = s.vname(m.ty, "Notification")
            if v != nt and v != s.vname(m.ty, "Response"):
                s.R.ob("once", "request", v == rq and st.ghost["ans"] == 1, f"after a request the server waits for the next message although it has sent {st.ghost['ans']} replies to it", w)
            else: s.R.ob("once", "other messages", st.ghost["ans"] == 0, "a message that is not a request is replied to", w)
            if v == rq: s.R.ob("called", "request", st.ghost["ran"] == (1 if st.ghost["found"] else 0) and st.ghost["found"] is not None, f"a request is handled {st.ghost['ran']} times", w)
            if v not in (rq, s.vname(m.ty, "Response")):
                s.R.ob("notified", "notification", v == nt and st.ghost["found"] is not None and st.ghost["ran"] == (1 if st.ghost["found"] else 0), f"a notification is handled {st.ghost['ran']} times before the next message is received", w)
        s.reset(st)
    def hook(s, c, st, np, args):
        I = s.I; nm = c.f["name"]; f = s.local(c); w = rel(c.fn.where(c.sp)) if c.fn and c.sp else ""
        t = I.ty(c.dty)
        if t.get("path") in ("core::option::Option", "core::result::Result") and t["args"] and s.path(t["args"][0]) == "lsp_server::Message" and s.own(c, args):
            return s.receive(c, st, w)
        if nm == "send" and len(args) > 1 and s.path(c.t["atys"][1]) == "lsp_server::Message": return s.send(c, st, args, w)
        if nm in ("into", "from") and s.path(c.dty) == "lsp_server::Message" and args:
            a = peel(I, st, args[0]); n = s.path(c.t["atys"][0]).split("::")[-1]; k = s.vname(c.dty, n)
            return [(st, Agg(c.dty, k, (a,)))] if k is not None else [(st, a)]
        if "serde_json::value::Value" in [s.path(a) for a in c.t.get("atys", ())[1:]] and s.tname(c.t["atys"][0])["k"] == "dyn" or nm in ("call", "call_mut", "call_once") and s.dyncall(c): return s.handle(c, st, args, w)
        if "HashMap" in np and nm in ("get", "get_key_value", "get_mut", "contains_key", "remove", "index") and len(args) == 2 and not (f and f.local): return s.lookup(c, st, args, nm, w)
        if nm.startswith("spawn") and ("rayon" in np or "thread" in np) and not (f and f.file.endswith(SRV)):
            clo = next((a for a in args if isinstance(peel(I, st, a), Agg) and I.ty(peel(I, st, a).ty)["k"] == "closure"), None)
            s.R.saw("threads started", w)
            if clo is None: return s.opaque(c, st, args)
            y = st.copy(); old = y.ghost.get("thread"); y.ghost["thread"] = True; out = []
            for z, r in I.call_value(y, clo, [], c.d, c.t, c.fn): z.ghost["thread"] = old; out.append((z, I.mkval(I.fresh("op:spawn"), c.dty)))
            return out
        if f is not None:
            if s.leads(f) or STD.search(f.file): return None
            if nm in SAME and args: return s.same(c, st, args)
            return s.opaque(c, st, args)
        if nm in SAME and args: return s.same(c, st, args)
        if nm in ("call", "call_mut", "call_once"): return None
        if nm in ("into", "try_into") and args: return s.into(c, st, args)
        return s.opaque(c, st, args)
    def into(s, c, st, args):
        I = s.I; ts = lambda i: I.ty(i)["s"]
        if c.t["atys"][0] == c.dty: return [(st, args[0])]
        for g in I.cr.fns:
            if g.local and g.nargs == 1 and g.path.split("::")[-1] == "from" and "From<" in g.path and ts(g.locals[0]["ty"]) == ts(c.dty) and ts(g.locals[1]["ty"]) == ts(c.t["atys"][0]): return I.call_fn(st, g, args, c.d + 1)
        return s.opaque(c, st, args)
    def own(s, c, args): return c.f["name"] in ("next", "recv", "try_recv", "recv_timeout")
    def dyncall(s, c): return False
    def receive(s, c, st, w):
        I = s.I; s.where = w; t = I.ty(c.dty); y = st.copy(); s.settle(y)
        if not I.record: s.R.saw("places that receive messages", w)
        m = I.mkval(I.fresh("msg"), t["args"][0]); z = y.copy(); z.ghost["msg"] = m
        if t["path"] == "core::option::Option": return [(z, Agg(c.dty, 1, (m,))), (y, Agg(c.dty, 0, ()))]
        return [(z, okv(c.dty, m)), (y, s.err(c))]
    def payload(s, st):
        """(variant name, fields) of the message being handled."""
        m = st.ghost.get("msg")
        if m is None: return None, None
        v = st.facts.get(("var", m.key))
        if v is None: return None, None
        return s.I.ty(m.ty)["variants"][v]["name"], s.I.proj(st, m, ("vf", v, 0))
    def lookup(s, c, st, args, nm, w):
        I = s.I; kind, p = s.payload(st)
        if p is None or s.tname(c.t["atys"][1])["k"] not in ("str",) and "str" not in s.tname(c.t["atys"][1])["s"].lower(): return s.opaque(c, st, args)
        ok = s.ident(st, args[1]) == s.ident(st, s.field(st, p, "method"))
        if not I.record: s.R.saw("lookups of handlers", w)
        s.check(st, c, "called", f"{strip_closure(c.fn.path)} looks up", ok, "a handler is looked up by something else than the message's method")
        t = I.ty(c.dty); y = st.copy(); z = st.copy(); y.ghost["found"] = True; z.ghost["found"] = False
        if t["k"] == "bool": return [(y, True), (z, False)]
        h = I.mkval(I.fresh("handler"), t["args"][0]) if t.get("args") else I.mkval(I.fresh("handler"), c.dty)
        y.ghost["handler"] = s.ident(st, h)
        if not t.get("args"): return [(y, h)]
        return [(y, Agg(c.dty, 1, (h,))), (z, Agg(c.dty, 0, ()))]
    def handle(s, c, st, args, w):
        I = s.I; kind, p = s.payload(st); y = st.copy()
        if not I.record: s.R.saw("calls of handlers", w)
        fn = strip_closure(c.fn.path)
        s.check(st, c, "called", f"{fn} handler", s.ident(st, args[0]) == st.ghost.get("handler") and st.ghost.get("handler") is not None, "another handler is called than the one found for the message's method")
        s.check(st, c, "called", f"{fn} parameters", p is not None and s.ident(st, args[1]) == s.ident(st, s.field(st, p, "params")), "the handler is called with something else than the message's parameters")
        if kind == "Notification": s.check(st, c, "notified", f"{fn} thread", st.ghost.get("thread") is None, "a notification is handled on another thread, so that the next message may overtake it")
        y.ghost["ran"] = min(y.ghost.get("ran", 0) + 1, 3)
        t = I.ty(c.dty)
        if t.get("path") == "core::result::Result":
            z = y.copy(); a = I.mkval(I.fresh("value"), t["args"][0]); b = I.mkval(I.fresh("error"), t["args"][1])
            y.ghost["out"] = ("ok", s.ident(y, a)); z.ghost["out"] = ("err", s.ident(z, b))
            return [(y, Agg(c.dty, 0, (a,))), (z, Agg(c.dty, 1, (b,)))]
        return [(y, I.mkval(I.fresh("op:call"), c.dty))]
    def send(s, c, st, args, w):
        I = s.I; kind, p = s.payload(st); y = st.copy(); m = s.val(st, args[1]); fn = strip_closure(c.fn.path)
        if not I.record: s.R.saw("places that send messages", w)
        y.ghost["ans"] = min(y.ghost.get("ans", 0) + 1, 3)
        isr = isinstance(m, Agg) and I.ty(m.ty)["variants"][m.var]["name"] == "Response"
        s.check(st, c, "reply", f"{fn} replies", isr and kind == "Request", "what is sent is not a reply, or no request is being handled")
        if not isr or p is None: return [(y, s.any(c))]
        r = s.val(st, m.f[0])
        if not isinstance(r, Agg): s.check(st, c, "reply", f"{fn} reply", False, "the reply that is sent is not known"); return [(y, s.any(c))]
        s.check(st, c, "reply", f"{fn} id", s.ident(st, s.field(st, r, "id")) == s.ident(st, s.field(st, p, "id")), "the reply does not carry the request's id")
        res = s.val(st, s.field(st, r, "result")); err = s.val(st, s.field(st, r, "error")); out = st.ghost.get("out")
        vr, ve = s.variant(st, res), s.variant(st, err)
        if out and out[0] == "ok":
            s.check(st, c, "reply", f"{fn} result", vr == 1 and ve == 0 and s.ident(st, res.f[0]) == out[1], "the handler's result is not what the reply carries")
        elif out:
            s.check(st, c, "reply", f"{fn} error", vr == 0 and ve == 1, "the handler failed and the reply is not an error")
        else:
            s.check(st, c, "reply", f"{fn} unknown method", vr == 0 and ve == 1 and st.ghost.get("found") is False, "a request without a handler is not replied to with an error")
            e = s.val(st, err.f[0]) if ve == 1 else None; code = s.field(st, e, "code") if isinstance(e, Agg) else None
            s.check(st, c, "reply", f"{fn} unknown method code", isinstance(code, Lin) and code.is_const() and code.c == -32601, f"the error for an unknown method has the code {code!r}, not -32601")
        return [(y, s.any(c))]
    def any(s, c): return s.I.mkval(s.I.fresh("op:send"), c.dty)

def server_roots(cr, H):
    out = []
    for f in cr.fns:
        if not f.local or not f.file.endswith(SRV): continue
        for b in f.blocks:
            t = b["t"]
            if b.get("c") or t["k"] != "call" or not t.get("f"): continue
            d = cr.ty(t["dty"]) if t.get("dty") is not None else {}
            if t["f"]["name"] in ("next", "recv", "try_recv", "recv_timeout") and d.get("path") in ("core::option::Option", "core::result::Result") and cr.ty(d["args"][0]).get("path") == "lsp_server::Message":
                out.append(f); break
    return out

def serve(R, cr, H):
    I = H.I
    rs = server_roots(cr, H)
    R.ob("anchor", "receiving", len(rs) == 1, f"{[f.path for f in rs]} receive messages, one expected")
    for f in rs:
        st = State(); H.reset(st)
        for x, _ in I.call_fn(st, f, [I.mkval(("arg", k), f.locals[k]["ty"]) for k in range(1, f.nargs + 1)], 0): H.settle(x)
    for k, n in (("places that receive messages", 1), ("lookups of handlers", 2), ("calls of handlers", 2), ("places that send messages", 1)): R.floor("anchor", k, n)

def replies(R):
    R.rule("anchor", "the code that receives messages is found")
    R.rule("once", "between receiving a request and receiving the next message exactly one reply to it is sent, or a thread is started that sends exactly one; nothing else is replied to")
    R.rule("called", "the handler that is called is the one registered for the message's method, it gets the message's parameters, and it is called once")
    R.rule("reply", "a reply carries its request's id, and the handler's result if the handler succeeded or an error otherwise; a method without a handler is answered with the code for unknown methods")
    R.rule("kinds", "parameters that cannot be read are answered as invalid parameters, a failing method as an internal error, anything else with the method's result")
    absint.REGIONS.clear()
    cr = crate("ws", "ogma_ls"); I = Loose(cr); H = Replies(R, I, (SRV,)); I.call_hook = H.hook; I.loose_hook = H.loose; I.back_hook = H.settle
    H.where = ""
    H.rules = {"once", "called", "reply"}
    serve(R, cr, H)
    kinds(R, cr, False)
    finish(R, I)
    return H

class Kinds(Ls):
    """What the wrapper of a method does with its parameters and result."""
    def hook(s, c, st, np, args):
        I = s.I; nm = c.f["name"]; f = s.local(c); t = I.ty(c.dty)
        if nm == "from_value" and args:
            s.check(st, c, "kinds", "parameters", s.ident(st, args[0]) == repr(("params",)), "something else than the message's parameters is read")
            y = st.copy(); z = st.copy(); a = I.mkval(I.fresh("param"), t["args"][0]); y.ghost["in"] = s.ident(y, a); z.ghost["in"] = False
            return [(y, Agg(c.dty, 0, (a,))), (z, Agg(c.dty, 1, (I.mkval(I.fresh("badparam"), t["args"][1]),)))]
        if nm == "to_value" and args:
            a = I.mkval(("tv", s.ident(st, args[0])), t["args"][0])
            return [(st, Agg(c.dty, 0, (a,)))]      # a failure panics: see L03's assumptions
        if c.f.get("trait") and nm == "call" and (f is None or f.local) and np.endswith("::call") and "ops::function" not in c.f["trait"] and len(args) == 2:
            if not I.record: s.R.saw("calls of methods", rel(c.fn.where(c.sp)))
            y = st.copy(); y.ghost["ran"] = min(y.ghost.get("ran", 0) + 1, 3)
            s.check(st, c, "kinds", "call", s.ident(st, args[1]) == st.ghost.get("in"), "the method is called with something else than the parameters read")
            if t.get("path") != "core::result::Result": return [(y, I.mkval(I.fresh("op:call"), c.dty))]
            z = y.copy(); a = I.mkval(I.fresh("out"), t["args"][0]); b = I.mkval(I.fresh("fail"), t["args"][1])
            y.ghost["out"] = s.ident(y, a); z.ghost["out"] = False
            return [(y, Agg(c.dty, 0, (a,))), (z, Agg(c.dty, 1, (b,)))]
        if f is not None:
            if s.leads(f) or STD.search(f.file): return None
            if nm in SAME and args: return s.same(c, st, args)
            return s.opaque(c, st, args)
        if nm in SAME and args: return s.same(c, st, args)
        if nm in ("call", "call_mut", "call_once"): return None
        return s.opaque(c, st, args)

CODES = {"InvalidParams": -32602, "InternalError": -32603}
def kinds(R, cr, notify):
    I = Loose(cr); H = Kinds(R, I, (SRV,)); I.call_hook = H.hook; I.loose_hook = H.loose
    n = 0
    for f in cr.fns:
        if not (f.local and f.file.endswith(SRV) and not f.closure_of and f.nargs == 2 and H.path(f.locals[2]["ty"]) == "serde_json::value::Value"): continue
        t = cr.ty(f.locals[0]["ty"]); isreq = t.get("path") == "core::result::Result"
        if isreq == notify: continue
        n += 1; R.saw("wrappers of methods", f.path)
        st = State(); st.ghost["ran"] = 0; fn = strip_closure(f.path)
        for x, r in I.call_fn(st, f, [I.mkval(("self",), f.locals[1]["ty"]), I.mkval(("params",), f.locals[2]["ty"])], 0):
            g = x.ghost; w = rel(f.where())
            if notify:
                R.ob("notified", f"{fn} called", g["ran"] == (0 if g.get("in") is False else 1), f"a notification with readable parameters is handled {g['ran']} times", w); continue
            r = H.val(x, r); v = H.variant(x, r)
            if g.get("in") is False or g.get("out") is False:
                want = "InvalidParams" if g.get("in") is False else "InternalError"
                R.ob("kinds", f"{fn} {want} ran", g["ran"] == (0 if g.get("in") is False else 1), f"the method is called {g['ran']} times", w)
                e = H.val(x, r.f[0]) if isinstance(r, Agg) and v == 1 else None
                code = H.val(x, H.field(x, e, "code")) if isinstance(e, Agg) else None
                num = None
                if isinstance(code, Agg):
                    for g2 in cr.fns:
                        if g2.local and g2.nargs == 1 and cr.tys(g2.locals[1]["ty"]) == cr.tys(code.ty) and cr.tys(g2.locals[0]["ty"]) == "i32":
                            num = [q for _, q in I.call_fn(x, g2, [code], 1)]
                            num = num[0].c if len(num) == 1 and isinstance(num[0], Lin) and num[0].is_const() else None
                elif isinstance(code, Lin) and code.is_const(): num = code.c
                R.ob("kinds", f"{fn} {want}", num == CODES[want], f"{'parameters that cannot be read' if want == 'InvalidParams' else 'a failing method'} give {num}, not error code {CODES[want]}", w)
            else:
                a = H.val(x, r.f[0]) if isinstance(r, Agg) and v == 0 else None
                R.ob("kinds", f"{fn} result", g["ran"] == 1 and a is not None and H.ident(x, a) == repr(("tv", g.get("out"))), "the wrapper gives something else than the method's result", w)
    R.ob("anchor", f"wrappers {notify}", n == 1, f"{n} wrappers of methods found, 1 expected")
    return H

# ---------------------------------------------------------------- documents
WSP = ("ogma-ls/workspace.rs", "ogma-ls/server/file_mgmt.rs")
class Docs(Ls):
    """Monitor: which document is changed, by which edits and in which order."""
    def isconv(s, f):
        return f.local and f.nargs == 2 and not f.closure_of and s.path(f.locals[2]["ty"]) == "lsp_types::Range" and s.path(f.locals[0]["ty"]) == "core::ops::range::Range"
    def settle(s, st):
        g = st.ghost
        if g.get("chg") is not None and not s.I.record:
            s.R.ob("edits", "each edit", g["n"] == 1, f"an edit is applied {g['n']} times before the next one", s.where)
        g["chg"] = None; g["n"] = 0; g["done"] = None
    def hook(s, c, st, np, args):
        I = s.I; nm = c.f["name"]; f = s.local(c); t = I.ty(c.dty); w = rel(c.fn.where(c.sp)) if c.fn and c.sp else ""; s.where = w
        fn = strip_closure(c.fn.path) if c.fn else ""
        if f is not None and s.isconv(f):
            ty = t["args"][0]; a = Agg(c.dty, None, [I.mkval(I.fresh("conv"), ty), I.mkval(I.fresh("conv"), ty)])
            y = st.copy(); y.ghost["conv"] = (repr(a), s.ident(st, args[0]), s.ident(st, args[1]))
            return [(y, a)]
        if f is not None and s.leads(f) and not f.path.endswith("clone"): return None
        tn = [s.path(a) for a in c.t.get("atys", ())]
        if "HashMap" in np and len(args) >= 2 and "Url" in s.tname(c.t["atys"][1])["s"]:
            key = s.ident(st, args[1])
            if nm == "insert":
                y = st.copy(); y.ghost["ins"] = (key, s.val(st, args[2]))
                if not I.record: s.R.saw("documents stored", w)
                return [(y, s.any(c))]
            if nm in ("get_mut", "entry", "get", "contains_key", "remove"):
                if not I.record: s.R.saw("documents looked up", w)
                s.check(st, c, "document", f"{fn} {nm}", key == repr(st.ghost.get("uri")), "another document is looked up than the one the notification names")
                if nm == "get_mut":
                    y = st.copy(); y.ghost["hit"] = True; z = st.copy(); z.ghost["hit"] = False
                    to = I.ty(t["args"][0])["to"]; I.htypes[("H", "file")] = to; y.mem[("H", "file")] = I.mkval(("file",), to)
                    return [(y, Agg(c.dty, 1, (MRef(("H", "file"), ()),))), (z, Agg(c.dty, 0, ()))]
        if nm in ("iter", "into_iter", "deref") and args and isinstance(peel(I, st, args[0]), Seq) and s.ident(st, args[0]) == st.ghost.get("list"):
            return [(st, peel(I, st, args[0]) if nm == "deref" and I.ty(c.dty)["k"] != "ref" else VRef(peel(I, st, args[0])) if nm == "deref" else Obj("chit", "all"))]
        if nm in ("into_iter", "iter", "by_ref") and args and isinstance(peel(I, st, args[0]), Obj) and peel(I, st, args[0]).tag == "chit": return [(st, args[0])]
        if nm == "next" and args and t.get("path") == "core::option::Option" and s.path(t["args"][0]) == "lsp_types::TextDocumentContentChangeEvent":
            it = peel(I, st, args[0]); y = st.copy(); s.settle(y); z = y.copy()
            whole = isinstance(it, Obj) and it.tag == "chit"
            s.check(st, c, "edits", f"{fn} order", whole, "the edits are not gone through one by one in the order given")
            if not I.record: s.R.saw("loops over edits", w)
            ty = t["args"][0]; m = I.mkval(("chg",), I.ty(ty)["to"]) if I.ty(ty)["k"] == "ref" else I.mkval(("chg",), ty)
            z.ghost["chg"] = m; z.ghost["done"] = False; z.ghost["n"] = 0; y.ghost["done"] = True; y.ghost["chg"] = None
            k = repr(m.key)
            for q in [q for q in z.facts if "'chg'" in repr(q)]: z.facts.pop(q)
            return [(z, Agg(c.dty, 1, (VRef(m) if I.ty(ty)["k"] == "ref" else m,))), (y, Agg(c.dty, 0, ()))]
        if nm == "replace_range" and len(args) == 3: return s.replace(c, st, args, w, fn)
        if nm == "len" and args and isinstance(peel(I, st, args[0]), Seq):
            return [(st, I.mkval(("blen", s.ident(st, args[0])), c.dty))]
        if s.intext(st, args) and nm not in SAME and nm not in ("as_mut_string", "fmt", "new_debug", "new_display"):
            s.check(st, c, "edits", f"{fn} {nm}", False, f"{c.path} changes a document's text in a way that is not understood")
        if f is not None:
            if STD.search(f.file): return None
            if nm in SAME and args: return s.same2(c, st, args)
            return s.opaque(c, st, args)
        if nm in ("call", "call_mut", "call_once"): return None
        if nm in SAME and args: return s.same2(c, st, args)
        return s.opaque(c, st, args)
    def same2(s, c, st, args):
        if isinstance(args[0], MRef) and s.I.ty(c.dty)["k"] == "ref": return [(st, args[0])]
        v = peel(s.I, st, args[0])
        if s.I.ty(c.dty)["k"] == "ref" and s.I.ty(c.dty)["mut"] or not isinstance(v, (Seq, Obj)) and c.f["name"] not in ("clone",): return s.opaque(c, st, args)
        return s.same(c, st, args)
    def any(s, c): return s.I.mkval(s.I.fresh("op"), c.dty)
    def opaque(s, c, st, args, what=None):
        t = s.I.ty(c.dty); out = super().opaque(c, st, [a for a in args if not (isinstance(a, MRef) and a.loc == ("H", "file"))], what)
        return out
    def intext(s, st, args):
        """A call which may change the document's text."""
        return any(isinstance(a, MRef) and a.loc == ("H", "file") for a in args)
    def replace(s, c, st, args, w, fn):
        I = s.I; y = st.copy(); g = st.ghost
        if not I.record: s.R.saw("places that edit", w)
        tgt = args[0]
        cur = peel(I, st, tgt)
        s.check(st, c, "edits", f"{fn} text", isinstance(tgt, MRef) and tgt.loc == ("H", "file") and len(tgt.path) == 1 and tgt.path[0] == s.textf, "the edit is not made in the document's text")
        chg = g.get("chg")
        if chg is None: s.check(st, c, "edits", f"{fn} edit", False, "text is replaced outside the loop over the edits")
        else:
            y.ghost["n"] = min((g.get("n") or 0) + 1, 3)
            new = s.field(st, chg, "text"); s.check(st, c, "edits", f"{fn} new text", s.ident(st, args[2]) == s.ident(st, new), "the text put in is not the edit's")
            rg = s.field(st, chg, "range"); v = s.variant(st, rg); r = peel(I, st, args[1])
            if v == 1:
                ok = g.get("conv") is not None and g["conv"] == (repr(r), s.ident(st, cur), s.ident(st, I.proj(st, rg, ("vf", 1, 0))))
                s.check(st, c, "edits", f"{fn} range", ok, "what is replaced is not the edit's range, converted in the text as the edits before it have left it")
            elif v == 0:
                ok = isinstance(r, Agg) and (not r.f or isinstance(r.f[0], Lin) and r.f[0].is_const() and r.f[0].c == 0 and (len(r.f) == 1 and "RangeFrom" in I.ty(r.ty)["s"] or len(r.f) == 2 and r.f[1] == I.mkval(("blen", s.ident(st, cur)), I.ty_id("usize"))))
                s.check(st, c, "edits", f"{fn} whole text", ok, "an edit without a range does not replace the whole text")
            else: s.check(st, c, "edits", f"{fn} range", False, "text is replaced without looking at the edit's range")
        if isinstance(tgt, MRef): I.wr(y, tgt.loc, tgt.path, I.mkval(I.fresh("text"), I.ty_id("alloc::string::String")))
        return [(y, UNIT)]

def documents(R):
    R.rule("anchor", "the code that handles documents and their edits is found")
    R.rule("notified", "a notification is handled once, completely, before the next message is received")
    R.rule("document", "opening stores the given text and version under the given name; edits go to the document the notification names")
    R.rule("edits", "every edit of a notification is applied once, in the order given, at its range in the text as the edits before it have left it; an edit without a range replaces the whole text")
    R.rule("version", "edits are applied if their version is above the document's, whether or not versions are skipped, and the document then has their version; edits of an older version change nothing")
    absint.REGIONS.clear()
    cr = crate("ws", "ogma_ls")
    # handled in order on the thread that receives
    I = Loose(cr); H = Replies(R, I, (SRV,)); I.call_hook = H.hook; I.loose_hook = H.loose; I.back_hook = H.settle; H.where = ""; H.rules = {"notified"}
    serve(R, cr, H)
    kinds(R, cr, True)
    I = Loose(cr); H = Docs(R, I, WSP); I.call_hook = H.hook; I.loose_hook = H.loose; I.back_hook = H.settle; I.lost = {}
    H.where = ""
    ft = next((t for t in cr.types if t["k"] == "adt" and t.get("path") == "workspace::File"), None)
    R.ob("anchor", "document", ft is not None and {"text", "version"} <= {x["name"] for x in ft["variants"][0]["fields"]}, "the type of a document is not found")
    H.textf = [x["name"] for x in ft["variants"][0]["fields"]].index("text")
    seen = set()
    for f in cr.fns:
        if not (f.local and f.nargs == 2 and not f.closure_of and f.file.endswith(WSP[1])): continue
        p = H.path(f.locals[2]["ty"]).split("::")[-1]
        if p not in ("DidOpenTextDocumentParams", "DidChangeTextDocumentParams"): continue
        seen.add(p); R.saw("document notifications", f.path); w = rel(f.where()); fn = strip_closure(f.path)
        st = State(); st.ghost["n"] = 0; prm = I.mkval(("prm",), f.locals[2]["ty"])
        doc = H.field(st, prm, "text_document"); uri = H.field(st, doc, "uri"); st.ghost["uri"] = uri.key if isinstance(uri, Sym) else None; ver = H.field(st, doc, "version")
        if p == "DidChangeTextDocumentParams": st.ghost["list"] = H.ident(st, H.field(st, prm, "content_changes"))
        for x, r in I.call_fn(st, f, [I.mkval(("self",), f.locals[1]["ty"]), prm], 0):
            g = x.ghost
            if p == "DidOpenTextDocumentParams":
                ins = g.get("ins"); a = ins[1] if ins else None
                R.ob("document", f"{fn} stores", ins is not None and ins[0] == repr(uri.key), "the document is not stored under its name", w)
                R.ob("document", f"{fn} text", isinstance(a, Agg) and H.ident(x, H.field(x, a, "text")) == H.ident(x, H.field(x, doc, "text")), "what is stored is not the given text", w)
                R.ob("document", f"{fn} version", isinstance(a, Agg) and H.field(x, a, "version") == ver, "what is stored is not the given version", w)
                continue
            if g.get("hit") is False: continue
            R.ob("document", f"{fn} looks up", g.get("hit") is True, "the document's edits are not applied to it", w)
            if g.get("hit") is not True: continue
            fl = I.rd(x, ("H", "file"), ()); v0 = H.field(x, I.mkval(("file",), fl.ty), "version"); v1 = H.field(x, fl, "version")
            applied = g.get("done") is True
            if applied: R.ob("version", f"{fn} applied", x.entails_le(v0 - ver) and v1 == ver, f"edits are applied although their version may be below the document's, or the document's version becomes {v1!r}", w)
            else: R.ob("version", f"{fn} not applied", x.entails_le(ver - v0) and fl == I.mkval(("file",), fl.ty), "edits of a newer version are not applied, or older ones change the document", w)
    R.ob("anchor", "notifications", len(seen) == 2, f"only {sorted(seen)} found")
    for k, n in (("loops over edits", 1), ("places that edit", 1), ("documents looked up", 1), ("documents stored", 1)): R.floor("anchor", k, n)
    finish(R, I)
    return H

# ---------------------------------------------------------------- positions
LIB = "ogma-ls/lib.rs"
def usz(I, key): return Lin.atom(("s", key, 64))

class Places(Ls):
    """Text positions: lines and where they start, characters and what they take."""
    def kind(s, f):
        """Which of the conversions a function is, by its signature."""
        if not f.local or f.closure_of or f.nargs != 2 or s.tname(f.locals[1]["ty"])["k"] != "str" and s.path(f.locals[1]["ty"]) != "alloc::string::String": return None
        a = s.path(f.locals[2]["ty"]); r = s.I.ty(f.locals[0]["ty"])
        if a == "lsp_types::Range" and r.get("path") == "core::ops::range::Range": return "range"
        if a == "lsp_types::Position" and r["s"] == "usize": return "position"
        if s.I.ty(f.locals[2]["ty"])["s"] in ("usize", "u32") and r["s"] == "usize": return "column"
        return None
    def hook(s, c, st, np, args):
        I = s.I; nm = c.f["name"]; f = s.local(c); t = I.ty(c.dty); w = rel(c.fn.where(c.sp)) if c.fn and c.sp else ""
        k = s.kind(f) if f is not None else None
        if k and f.path != s.root:
            a = args[1]; key = s.ident(st, a) if k != "column" else repr(a)
            return [(st, usz(I, (k, s.ident(st, args[0]), key)))] if k != "range" else s.opaque(c, st, args)
        if f is not None and s.leads(f): return None
        a = peel(I, st, args[0]) if args else None
        if nm == "lines" and isinstance(a, Seq): return [(st, Obj("lines", s.ident(st, a)))]
        if nm in ("nth", "skip", "next") and isinstance(a, Obj) and a.tag == "lines":
            if nm == "nth":
                if not I.record: s.R.saw("lines looked up", w)
                n = args[1]; y = st.copy(); z = st.copy(); line = I.mkseq("str", ("line", a.f[0], repr(n)), I.ty_id("char"))
                y.ghost["line"] = (s.ident(y, line), repr(n)); z.ghost["line"] = (None, repr(n))
                return [(y, Agg(c.dty, 1, (VRef(line),))), (z, Agg(c.dty, 0, ()))]
        if nm == "as_ptr" and isinstance(a, Seq):
            i = s.ident(st, a)
            return [(st, usz(I, ("ptr",)) + (usz(I, ("off", i)) if i != s.text else 0))]
        if nm == "len" and isinstance(a, Seq): return [(st, usz(I, ("blen", s.ident(st, a))))]
        if nm in ("chars", "char_indices") and isinstance(a, Seq): return [(st, Obj(nm, s.ident(st, a)))]
        if nm in ("into_iter", "by_ref", "iter") and isinstance(a, Obj) and a.tag in ("chars", "char_indices"): return [(st, args[0])]
        if nm == "next" and isinstance(a, Obj) and a.tag in ("chars", "char_indices") and s.column:
            if not I.record: s.R.saw("loops over characters", w)
            s.check(st, c, "column", "text", a.f[0] == s.text, "the characters gone through are not those of the line")
            y = st.copy(); z = st.copy(); s.consume(y); z = y.copy()
            y.ghost["ended"] = True; y.add_eq(y.ghost["p8"] - usz(I, ("blen", s.text)))
            ch = I.mkval(I.fresh("ch"), I.ty_id("char")); l8, l16 = usz(I, I.fresh("l8")), usz(I, I.fresh("l16"))
            for l, m in ((l8, 4), (l16, 2)): z.add_le(l - m); z.add_le(-l + 1)
            z.ghost["ch"] = (s.ident(z, ch), l8, l16)
            ty = t["args"][0]; v = ch if a.tag == "chars" else Agg(ty, None, [z.ghost["p8"], ch])
            return [(z, Agg(c.dty, 1, (v,))), (y, Agg(c.dty, 0, ()))]
        if nm in ("len_utf8", "len_utf16") and args and st.ghost.get("ch") and s.ident(st, args[0]) == st.ghost["ch"][0]:
            return [(st, st.ghost["ch"][1 if nm == "len_utf8" else 2])]
        if f is not None:
            if STD.search(f.file) or "core/src/cmp" in f.file: return None
            if nm in SAME and args: return s.same(c, st, args)
            return s.opaque(c, st, args)
        if nm in ("call", "call_mut", "call_once", "saturating_sub", "max", "min", "wrapping_sub"): return None
        if nm in SAME and args: return s.same(c, st, args)
        return s.opaque(c, st, args)
    def consume(s, st):
        """The character read last has been counted."""
        g = st.ghost
        if g.get("ch") is None: return
        if not s.I.record: s.R.ob("column", "goes on", st.entails_le(g["p16"] - s.want + 1), "a character is counted although those before it already take as many UTF-16 units as asked for", s.where)
        g["p8"], g["p16"] = g["p8"] + g["ch"][1], g["p16"] + g["ch"][2]; g["ch"] = None

class Count(Loose):
    """Loops over characters: a number which an iteration changes is one of the two lengths counted so far, or unknown."""
    def fixloop(s, s0, step, name, trim, sp=None, ends=None):
        H = s.H
        if not H.column: return super().fixloop(s0, step, name, trim, sp)
        s0 = s0.copy(); trim(s0); outer = s0.trace; s0.trace = (); lab = {}; gh0 = {k: s0.ghost[k] for k in ("p8", "p16")}; rounds = 0
        def fits(st, v, k): return isinstance(v, Lin) and st.entails_eq(v - st.ghost[k])
        def head():
            h = s0.copy()
            if lab: 
                for k in ("p8", "p16"): h.ghost[k] = usz(s, s.fresh(k))
            for l, cand in lab.items():
                h.mem[l] = h.ghost[cand[0]] if cand else s.mkval(s.fresh("any"), s.ty_id("usize")) if isinstance(s0.mem[l], Lin) else Obj("junk")
            return h
        while True:
            rounds += 1
            if rounds > 60: raise Imprecise("loop does not converge")
            h = head(); s.record += 1
            try:
                res = [(s2.copy(), kind, x) for s2, kind, x in step(h.copy()) if kind == "back"]
                for s2, _, _ in res: trim(s2); H.consume(s2)
            finally: s.record -= 1
            again = False
            for s2, kind, x in res:
                for l, v in h.mem.items():
                    if l not in s2.mem: continue
                    n = s2.mem[l]
                    if l not in lab:
                        if n != v: lab[l] = [k for k in ("p8", "p16") if fits(s0, s0.mem[l], k)] if isinstance(v, Lin) else []; again = True
                    elif lab[l] and not fits(s2, n, lab[l][0]): lab[l].pop(0); again = True
            if not again: break
        out = []
        for s2, kind, x in step(head()):
            if kind == "back": s2 = s2.copy(); H.consume(s2); continue
            s2 = s2.copy(); s2.trace = outer + (("loop", name),) + s2.trace; out.append((s2, kind, x))
        s.loop_info[name] = {"partitions": 1, "rounds": rounds, "sp": sp}
        return out

def positions(R):
    R.rule("anchor", "the conversions are found")
    R.rule("column", "a column in UTF-16 units becomes the length in bytes of the shortest beginning of the line which takes at least as many units, or of all of it")
    R.rule("position", "a position becomes the start of its line plus its column there, or the text's length where the text has no such line")
    R.rule("range", "a range becomes the positions of its start and of its end, the end never before the start")
    absint.REGIONS.clear()
    cr = crate("ws", "ogma_ls")
    fs = {}
    H0 = Places(R, Loose(cr), (LIB,))
    for f in cr.fns:
        if f.local and f.file.endswith(LIB) and H0.kind(f): fs.setdefault(H0.kind(f), []).append(f)
    for k in ("column", "position", "range"): R.ob("anchor", k, len(fs.get(k, ())) == 1, f"{len(fs.get(k, ()))} conversions of a {k} found, 1 expected")
    for k, (f, *_) in sorted(fs.items()):
        I = Count(cr); H = Places(R, I, (LIB,)); I.H = H; I.call_hook = H.hook; I.loose_hook = H.loose; H.root = f.path; H.column = k == "column"; w = rel(f.where()); H.where = w; fn = strip_closure(f.path)
        text = I.mkseq("str", ("text",), I.ty_id("char")); st = State(); H.text = H.ident(st, text); tarm = VRef(text)
        a = I.mkval(("arg",), f.locals[2]["ty"]); R.saw("conversions", f.path)
        if k == "column": H.want = a; st.ghost["p8"] = st.ghost["p16"] = Lin.const(0)
        for x, r in I.call_fn(st, f, [tarm, a], 0):
            g = x.ghost
            if k == "column":
                p8, p16, ch = g["p8"], g["p16"], g.get("ch"); r = r if isinstance(r, Lin) else None
                if r is None: R.ob("column", f"{fn} result", False, "what the conversion gives is not known", w)
                elif g.get("ended"): R.ob("column", f"{fn} whole line", x.entails_eq(r - p8), "past the last column something else than the line's length is given", w)
                elif ch is None: R.ob("column", f"{fn} result", x.entails_eq(r - p8) and x.entails_le(H.want - p16), "what is given is not the length of the shortest beginning", w)
                else: R.ob("column", f"{fn} result", x.entails_eq(r - p8) and x.entails_le(H.want - p16) or x.entails_eq(r - p8 - ch[1]) and x.entails_le(p16 - H.want + 1) and x.entails_le(H.want - p16 - ch[2]), "what is given is not the length of the shortest beginning with so many UTF-16 units", w)
            elif k == "position":
                line, n = g.get("line") or (0, 0); ln = H.field(x, a, "line"); ch = H.field(x, a, "character")
                R.ob("position", f"{fn} line", n == repr(ln), "another line is looked up than the position's", w)
                if line is None: R.ob("position", f"{fn} no such line", r == usz(I, ("blen", H.text)), "a position below the last line does not become the text's length", w)
                else: R.ob("position", f"{fn} result", isinstance(r, Lin) and x.entails_eq(r - usz(I, ("off", line)) - usz(I, ("column", line, repr(ch)))), "what is given is not the line's start plus the column's bytes in that line", w)
            else:
                ps = [usz(I, ("position", H.text, H.ident(x, H.field(x, a, n)))) for n in ("start", "end")]
                ok = isinstance(r, Agg) and len(r.f) == 2 and all(isinstance(q, Lin) for q in r.f)
                R.ob("range", f"{fn} start", ok and x.entails_eq(r.f[0] - ps[0]), "the range does not begin at its start", w)
                R.ob("range", f"{fn} end", ok and x.entails_le(r.f[0] - r.f[1]) and (x.entails_eq(r.f[1] - ps[1]) or x.entails_eq(r.f[1] - r.f[0]) and x.entails_le(ps[1] - r.f[0])), "the range does not end at its end (or at its start, where that is later)", w)
        R.saw("functions", *I.fns_analysed)
    R.floor("anchor", "loops over characters", 1); R.floor("anchor", "lines looked up", 1)
    return H0
