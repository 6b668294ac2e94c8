"""The command line: what each argument means, and that the parsed program options are exactly what was given."""
from lin import Lin
import absint
from absint import *
from models import okv, peel
from cls import *
from core import crate, rel
from p_history import panics, finish

ZERO = Lin.const(0)
NEUTRAL_ARG = {"help", "long_help", "help_heading", "value_name", "value_names", "display_order", "value_hint", "hide_long_help", "hide_short_help", "hide_possible_values"}
NEUTRAL_CMD = {"author", "about", "long_about", "before_help", "after_help", "after_long_help", "before_long_help", "name", "bin_name", "help_template", "term_width", "max_term_width", "display_name"}

class Clap:
    """Records builder chains as values: arg<id, settings>, cmd<settings, args>."""
    def __init__(s, I): s.I = I
    def text(s, st, v):
        v = peel(s.I, st, v)
        if isinstance(v, Seq):
            cs = []
            for g in v.segs:
                if g[0] != "el" or not isinstance(g[1], Lin) or not g[1].is_const(): return None
                cs.append(chr(g[1].c))
            return "".join(cs)
        if isinstance(v, Lin) and v.is_const(): return v.c
        if isinstance(v, bool): return v
        if isinstance(v, Agg): return f"#{v.var}" + "".join(f"({s.text(st, x)})" for x in v.f)
        if isinstance(v, Obj): return f"{v.tag}" + "".join(f"({x!r})" for x in v.f)
        return repr(v)
    def hook(s, c, st, np, args):
        I = s.I; p = c.f.get("rpath") or c.f["path"]; nm = c.f["name"]
        if "clap::" not in p and "clap::" not in c.f["path"]: return None
        if c.f.get("local") or ("clap::derive::" in c.f["path"] and "as clap::derive" in p): return None      # the derived code itself: interpreted
        ty = I.adt_path(c.dty) or ""
        if "::arg::Arg" in p and nm == "new": return [(st, Obj("arg", s.text(st, args[0]), ()))]
        if "::command::App" in p and nm == "new": return [(st, Obj("cmd", (), ()))]
        if "ValueParser" in p:
            if nm == "value_parser" and len(args) == 1 and isinstance(peel(I, st, args[0]), Obj): return [(st, peel(I, st, args[0]))]
            ts = [I.adt_path(x) for x in c.f.get("args", []) if isinstance(x, int)]
            return [(st, Obj("parser", "string" if nm == "string" or nm == "new" and ts == ["alloc::string::String"] else nm))]
        a = [peel(I, st, x) for x in args]
        if a and isinstance(a[0], Obj) and a[0].tag == "arg" and ty.endswith("::Arg"):
            return [(st, Obj("arg", a[0].f[0], a[0].f[1] + ((nm, tuple(s.value(c, st, x) for x in args[1:])),)))]
        if a and isinstance(a[0], Obj) and a[0].tag == "cmd":
            if nm in ("arg", "args") and len(a) == 2 and isinstance(a[1], Obj) and a[1].tag == "arg": return [(st, Obj("cmd", a[0].f[0], a[0].f[1] + (a[1],)))]
            if nm in ("arg", "args") and isinstance(a[1], Seq) and all(g[0] == "el" and isinstance(g[1], Obj) for g in a[1].segs): return [(st, Obj("cmd", a[0].f[0], a[0].f[1] + tuple(g[1] for g in a[1].segs)))]
            if ty.endswith("::App") or ty.endswith("::Command"): return [(st, Obj("cmd", a[0].f[0] + ((nm, tuple(s.value(c, st, x) for x in args[1:])),), a[0].f[1]))]
        if "ArgMatches" in p and nm in ("is_present", "contains_id", "get_many", "remove_many", "get_flag", "values_of", "try_get_many"):
            if nm.startswith("try"): return None
            i = s.text(st, args[1]); out = []; g = f"has:{i}"
            for h in (True, False):
                if st.ghost.get(g, h) != h: continue
                x = st.copy(); x.ghost[g] = h
                if nm in ("is_present", "contains_id", "get_flag"): out.append((x, h)); continue
                if not h: out.append((x, Agg(c.dty, 0, ()))); continue
                q = s.values(x, i, c)
                v = Obj("it", q, ZERO, I.seq_len(q), "ref" if nm != "remove_many" else "own")
                out.append((x, Agg(c.dty, 1, (v,))))
            return out
        return None
    def values(s, st, i, c=None):
        I = s.I; b = ("c", ("given", i)); I.base_ety[b] = s.string
        n = Lin.atom(("n", b)); st.cons = st.cons + (-n + 1,)
        return Seq("vec", [("run", b, ZERO, n)], s.string)
    def value(s, c, st, v):
        """A setting's argument; for a validation function: whether it accepts every text."""
        t = s.text(st, v)
        if isinstance(v, Agg) and v.ty is not None and s.I.ty(v.ty)["k"] == "closure" or isinstance(v, FnV):
            x = st.copy()
            b = ("c", ("any text",)); s.I.base_ety[b] = None
            txt = Seq("str", [("run", b, ZERO, Lin.atom(("n", b)))], s.char)
            rs = [r for _, _, r in s.I.call_any_val(x, v, [VRef(txt)], c.d, c.t, c.fn)]
            return "accepts all" if rs and all(isinstance(r, Agg) and r.var == 0 for r in rs) else "may reject"
        return t

def meaning(o):
    """(problems, dict) of an argument's settings."""
    m = dict(short=[], long=[], takes=None, occ=None, vals=None, action=None, parser=None); bad = []
    for nm, a in o.f[1]:
        if nm in NEUTRAL_ARG: continue
        if nm in ("short", "long"): m[nm].append(chr(a[0]) if isinstance(a[0], int) and not isinstance(a[0], bool) else a[0])
        elif nm == "takes_value": m["takes"] = a[0]
        elif nm == "multiple_occurrences": m["occ"] = a[0]
        elif nm == "multiple_values": m["vals"] = a[0]
        elif nm == "action": m["action"] = a[0]
        elif nm == "value_parser": m["parser"] = a[0]
        elif nm == "validator":
            if a[0] != "accepts all": bad.append("values are validated")
        elif nm in ("required", "use_value_delimiter", "hide", "global", "last", "raw", "exclusive") and a and a[0] is False: pass
        elif nm == "number_of_values": bad.append(f"number_of_values({a[0]})")
        else: bad.append(f"{nm}({', '.join(map(str, a))})")
    return bad, m

def cli(R):
    R.rule("anchor", "the analysed API exists")
    R.rule("meaning", "there are exactly three arguments: -q/--quiet without a value; --def with exactly one value each time, any number of times, any text; file operands, any number, any text")
    R.rule("plain", "nothing else influences parsing: no delimiters, defaults, environment, requirements, conflicts, aliases or further settings")
    R.rule("options", "quiet is whether -q/--quiet was given, the definitions are exactly the --def values in order (none when not given), the files exactly the operands in order")
    R.rule("no-panic", "no panic is reachable")
    absint.REGIONS.clear()
    cr = crate("partial", "ogma_bin_partial"); I = Interp(cr); tid = struct_ty(cr, "App")
    fn = {}
    for f in cr.fns:
        if f.local and not f.closure_of and not f.raw.get("mono") and f.name in ("augment_args", "from_arg_matches_mut", "into_app", "from_arg_matches", "augment_args_for_update"): fn[f.name] = f
    for n in ("augment_args", "from_arg_matches_mut", "into_app", "from_arg_matches"):
        if not R.ob("anchor", n, n in fn, f"derived function {n} not found: the command line is not derived from the options"): return
    K = Clap(I); K.string = next((i for i, t in enumerate(cr.types) if t["k"] == "adt" and t["path"].endswith("string::String")), None)
    K.char = next((i for i, t in enumerate(cr.types) if t["k"] == "char"), None)
    I.call_hook = K.hook; wh = rel(fn["augment_args"].where())
    n = 0; store = STORE(cr)
    for x, r in I.call_fn(State(), fn["into_app"], [], 0):
        n += 1
        if not R.ob("anchor", "command", isinstance(r, Obj) and r.tag == "cmd", f"the command is {r!r}", wh): continue
        for nm, a in r.f[0]: R.ob("plain", f"command {nm}", nm in NEUTRAL_CMD, f"the command is set {nm}{a}", wh)
        ids = [o.f[0] for o in r.f[1]]
        R.ob("meaning", "arguments", sorted(map(str, ids)) == ["def", "files", "quiet"], f"arguments {ids}", wh)
        for o in r.f[1]:
            bad, m = meaning(o); i = o.f[0]
            R.saw("arguments", f"{i}: {m}"); R.saw("settings", *[f"{i}.{nm}{a}" for nm, a in o.f[1]])
            for b in bad: R.ob("plain", f"{i} {b.split('(')[0]}", False, f"argument {i} is set {b}", wh)
            R.ob("plain", f"{i}", not bad, f"{bad}", wh)
            if i == "quiet":
                R.ob("meaning", "quiet names", m["short"] == ["q"] and m["long"] == ["quiet"], f"quiet is -{m['short']} --{m['long']}", wh)
                R.ob("meaning", "quiet flag", m["takes"] is not True and not m["occ"] and not m["vals"] and m["parser"] is None and m["action"] is None, f"quiet: {m}", wh)
            else:
                R.ob("meaning", f"{i} names", not m["short"] and m["long"] == (["def"] if i == "def" else []), f"{i} is -{m['short']} --{m['long']}", wh)
                R.ob("meaning", f"{i} values", m["takes"] is True and (m["occ"] is True if i == "def" else (m["occ"] is True or m["vals"] is True)) and not (i == "def" and m["vals"]), f"{i}: {m}", wh)
                R.ob("meaning", f"{i} any text", m["parser"] in (None, "parser('string')") and (m["action"] is None or m["action"] in store), f"{i}: {m}", wh)
    R.ob("anchor", "command built", n >= 1, "the command is never built")
    # what was given -> the options
    names = {f["name"]: k for k, f in enumerate(I.ty(tid)["variants"][0]["fields"])}
    if not R.ob("anchor", "options", {"quiet", "def", "files"} <= set(names), f"options {sorted(names)}"): return
    R.ob("meaning", "options", len(names) == 3, f"options {sorted(names)}")
    for fname in ("from_arg_matches", "from_arg_matches_mut"):
        f = fn[fname]; cases = 0; wh2 = rel(f.where())
        st = State(); loc = ("H", "matches"); m = Sym(("matches",), None); st.mem[loc] = m
        for x, r in I.call_fn(st, f, [MRef(loc, ()) if fname.endswith("mut") else VRef(m)], 0):
            cases += 1
            if not R.ob("options", "no failure", isinstance(r, Agg) and r.var == 0, f"reading the options fails: {r!r}", wh2): continue
            o = r.f[0]; g = lambda i: x.ghost.get(f"has:{i}")
            q = o.f[names["quiet"]]
            R.ob("options", "quiet", isinstance(q, bool) and g("quiet") is q, f"quiet is {q!r} when given is {g('quiet')}", wh2)
            d = o.f[names["def"]]
            if g("def"):
                R.ob("options", "definitions given", isinstance(d, Agg) and d.var == 1 and isinstance(d.f[0], Seq) and seq_equal(I, x, d.f[0], K.values(x, "def")), f"definitions are {d!r}", wh2)
            else: R.ob("options", "no definitions", g("def") is False and isinstance(d, Agg) and d.var == 0, f"definitions are {d!r} when none are given", wh2)
            fl = o.f[names["files"]]; want = K.values(x, "files") if g("files") else Seq("vec", (), K.string)
            R.ob("options", "files", g("files") is not None and isinstance(fl, Seq) and seq_equal(I, x, fl, want), f"files are {fl!r}, expected {want!r}", wh2)
        R.ob("anchor", f"{fname} cases", cases >= 8, f"{cases} cases")
    R.floor("anchor", "arguments", 3); R.floor("anchor", "settings", 8)
    panics(R, I, "no-panic"); finish(R, I)

def STORE(cr):
    """How the recorded values of the actions that keep every value look."""
    return {f"#{k}" for t in cr.types if t["k"] == "adt" and t["path"].endswith("::ArgAction") for k, v in enumerate(t["variants"]) if v["name"] in ("StoreValue", "Append")}
