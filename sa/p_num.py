"""X06: numbers that come from the user's input are never used in arithmetic, indexing or narrowing that could fail or wrap around."""
import re
from graph import graph
from facts import strip_generics
from core import rel
from p_flow import intrinsics, origin, defs_of, short

SOURCE = re.compile(r"Number.*::(as_u128|as_i128|as_uint|as_int)$|Number::(as_u128|as_i128)")
CLEAN = re.compile(r"::(checked_\w+|saturating_\w+|wrapping_\w+|overflowing_\w+|min|clamp|rem_euclid|len|count|cmp|partial_cmp|eq|ne|lt|le|gt|ge|is_\w+|fmt|to_string|hash|contains|then|then_some)$")
BAD = re.compile(r"core::num::.*::(pow|abs|neg|isqrt|next_power_of_two|add|sub|mul)$|core::ops::arith::(Add|Sub|Mul|AddAssign|SubAssign|MulAssign|Neg)::\w+$|core::ops::index::Index(Mut)?::index(_mut)?$|::(split_at|split_at_mut|split_off|swap|remove|insert|drain|swap_remove|copy_within|rotate_left|rotate_right|step_by|chunks|chunks_exact|windows|with_capacity|reserve|resize|resize_with|repeat|from_elem)$|^<.* as core::ops::index::Index(Mut)?<.*>>::index(_mut)?$")

class Taint:
    def __init__(s, g):
        s.g = g; s.loc = {}; s.up = {}; s.ret = set(); s.n_src = 0; s.src = []
        s.callers = {}
        for k, n in g.nodes.items():
            for (fid, bi), site in n.sites.items():
                for x in site: s.callers.setdefault(x, set()).add(k)
        q = []
        for k, n in g.nodes.items():
            if any(SOURCE.search(strip_generics(x.path)) for x in n.ext): q.append(k)
        work = set(q); s.seen = set()
        while work:
            k = work.pop(); s.seen.add(k)
            work |= s.flow(k)
    def carries(s, cr, i, depth=0):
        t = cr.ty(i)
        if depth > 5: return False
        if t["k"] in ("int", "uint", "param"): return True
        if t["k"] in ("prim",): return re.match(r"[iu](\d+|size)$", t["s"]) is not None
        if re.fullmatch(r"[iu](8|16|32|64|128|size)", t["s"]): return True
        if t["k"] == "ref": return s.carries(cr, t["to"], depth + 1)
        if t["k"] == "adt":
            if re.search(r"(Option|Result|ControlFlow|Range\w*|Wrapping|Skip|Take|Enumerate|StepBy|Rev|Map)$", strip_generics(t["path"]).split("<")[0]): return any(s.carries(cr, a, depth + 1) for a in t.get("args", ()) if isinstance(a, int))
            return False
        return any(s.carries(cr, a, depth + 1) for a in t.get("elems") or ())
    def tainted(s, k, fid, o):
        if o["o"] == "const": return False
        return s.place(k, fid, o["p"])
    def place(s, k, fid, p):
        L = s.loc.get((k, fid), ())
        if p[0] in L: return True
        if "{closure" in k and p[0] == 1:
            fs = [e[1] for e in p[1] if isinstance(e, (list, tuple)) and e[0] == "f"]
            return bool(fs) and fs[0] in s.up.get(k, ())
        return False
    def flow(s, k):
        """Propagate inside one node; returns the nodes that have to be looked at again."""
        n = s.g.nodes[k]; again = set()
        for f in n.fns:
            fid = id(f); L = s.loc.setdefault((k, fid), set()); cr = f.crate
            ch = True
            def add(p):
                nonlocal ch
                if p[0] not in L and (s.carries(cr, f.locals[p[0]]["ty"])): L.add(p[0]); ch = True
            while ch:
                ch = False
                for bi, b in enumerate(f.blocks):
                    if b.get("c"): continue
                    for st in b["s"]:
                        if st["k"] != "=": continue
                        r = st["r"]; kind = r["r"]
                        if kind in ("use", "cast", "un") and s.tainted(k, fid, r["a"]): add(st["p"])
                        elif kind == "ref" and s.place(k, fid, r["p"]): add(st["p"])
                        elif kind == "bin" and (s.tainted(k, fid, r["a"]) or s.tainted(k, fid, r["b"])) and r["op"] not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp", "Rem", "BitAnd", "Shr"): add(st["p"])
                        elif kind == "agg":
                            ts = [i for i, o in enumerate(r["ops"]) if s.tainted(k, fid, o)]
                            if ts and r["kind"] in ("closure", "coroutine"):
                                for x in s.g.lookup(cr.ty(r["ty"])["path"], cr.name):
                                    if not set(ts) <= s.up.get(x.key, set()): s.up.setdefault(x.key, set()).update(ts); again.add(x.key)
                            elif ts: add(st["p"])
                    t = b["t"]
                    if t["k"] != "call": continue
                    cal = t.get("f"); path = strip_generics((cal.get("rpath") or cal["path"]) if cal else "")
                    args = [s.tainted(k, fid, a) for a in t["args"]]
                    if cal and SOURCE.search(path):
                        if t["dest"][0] not in L: s.src.append(rel(f.where(t["sp"])) if isinstance(t.get("sp"), list) else rel(f.where()))
                        add(t["dest"]); continue
                    xs = [x for x in s.g.lookup(cal.get("rpath") or cal["path"], cr.name)] if cal and cal.get("kind") == "item" else []
                    if xs:
                        for x in xs:
                            for ff in x.fns:
                                Lx = s.loc.setdefault((x.key, id(ff)), set())
                                for i, ta in enumerate(args):
                                    if ta and i + 1 <= ff.nargs and i + 1 not in Lx and s.carries(ff.crate, ff.locals[i + 1]["ty"]): Lx.add(i + 1); again.add(x.key)
                            if x.key in s.ret: add(t["dest"])
                        # generic callers passing closures are handled as foreign calls below
                    site = n.sites.get((fid, bi), ())
                    clos = [x for x in site if "{closure" in x] + [x for x in site if "{closure" not in x and x not in {y.key for y in xs}]
                    if any(args) and not xs:
                        if not CLEAN.search(path): add(t["dest"])
                    # closures: their parameters get what the receiver carries; the call returns what they return
                    if not xs:
                        for x in clos:
                            nd = s.g.nodes[x]
                            if any(args):
                                for ff in nd.fns:
                                    Lx = s.loc.setdefault((x, id(ff)), set())
                                    for i in range(2 if "{closure" in x else 1, ff.nargs + 1):
                                        if i not in Lx and s.carries(ff.crate, ff.locals[i]["ty"]): Lx.add(i); again.add(x)
                            if x in s.ret and not CLEAN.search(path): add(t["dest"])
            if 0 in L and k not in s.ret: s.ret.add(k); again |= s.callers.get(k, set())
        again.discard(k) if not again & {k} else None
        return again

def bounded(f, bi, o):
    """Is the block only reached past a comparison that bounds the operand from above (or equals it) with something else?"""
    src = origin(f, o)
    for ci, b in enumerate(f.blocks):
        t = b["t"]
        if b.get("c") or t["k"] != "switch" or t["d"]["o"] == "const" or t["d"]["p"][1]: continue
        d = t["d"]["p"][0]
        for st in b["s"]:
            if st["k"] != "=" or st["p"][0] != d or st["p"][1] or st["r"]["r"] != "bin": continue
            r = st["r"]; op = r["op"]; A, B = plus(f, origin(f, r["a"])), plus(f, origin(f, r["b"]))
            if src not in (A, B) or src is None: continue
            if src == B: op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            truth = {"Lt": True, "Le": True, "Eq": True, "Ge": False, "Gt": False, "Ne": False}.get(op)
            if truth is None: continue
            good = {x for v, x in t["v"] if bool(v) == truth} | ({t["else"]} if truth and all(not v for v, _ in t["v"]) else set())
            badt = ({t["else"]} | {x for _, x in t["v"]}) - good
            if not good: continue
            # reachability without the good edges
            seen = {0}; q = [0]
            while q:
                y = q.pop()
                for z in succs(f.blocks[y]["t"]):
                    if y == ci and z in good and z not in badt: continue
                    if z not in seen: seen.add(z); q.append(z)
            if bi not in seen: return True
    return False

def plus(f, o):
    """A sum that stops at the largest number bounds its first operand as well."""
    if o and o[0] == "call" and re.search(r"::saturating_add$", o[1]):
        d = defs_of(f, o[2])
        if len(d) == 1 and d[0][0] == "c" and d[0][1]["args"]: return origin(f, d[0][1]["args"][0])
    return o

def succs(t):
    if t["k"] == "switch": return [x for _, x in t["v"]] + [t["else"]]
    return [t["to"]] if t.get("to") is not None else []

def width(s): 
    m = re.fullmatch(r"([iu])(8|16|32|64|128|size)", s)
    return (m.group(1), 64 if m.group(2) == "size" else int(m.group(2))) if m else None

def numbers(R):
    R.rule("anchor", "the conversions of numbers are found")
    R.rule("use", "a number that came from an expression is not added to, subtracted, multiplied, narrowed, used as an index or as an amount of memory unless checked operations or a comparison bound it first")
    g = graph(); T = Taint(g)
    roots = set()
    for names, fs, f, t in intrinsics(g): R.saw("commands", *[f"{names[0] if names else '(computed)'}: {short(n.key)}" for n in fs]); roots |= {n.key for n in fs}
    R.saw("conversions", *T.src)
    for k in sorted(T.seen):
        n = g.nodes[k]
        if not any(T.loc.get((k, id(f))) for f in n.fns) and not T.up.get(k): continue
        R.saw("functions handling such numbers", k); cnt = 0
        for f in n.fns:
            fid = id(f); cr = f.crate
            for bi, b in enumerate(f.blocks):
                if b.get("c"): continue
                for st in b["s"]:
                    if st["k"] != "=": continue
                    r = st["r"]; w = rel(f.where(st["sp"])) if isinstance(st.get("sp"), list) else rel(f.where())
                    if r["r"] == "bin" and re.match(r"(Add|Sub|Mul)", r["op"]):
                        ts = [o for o in (r["a"], r["b"]) if T.tainted(k, fid, o)]
                        if ts:
                            cnt += 1; R.saw("uses", f"{w} {r['op']}")
                            ok = all(bounded(f, bi, o) for o in ts)
                            R.ob("use", f"{short(k)} {r['op']}", ok, f"{w}: {r['op'].replace('WithOverflow','')} on a number from the input, which may be as large as its type allows", w)
                    elif r["r"] == "cast" and "IntToInt" in str(r["kind"]) and T.tainted(k, fid, r["a"]):
                        a, c = width(cr.tys(f.locals[r["a"]["p"][0]]["ty"]) if not r["a"]["p"][1] else ""), width(cr.tys(r["ty"]))
                        if a and c and (c[1] < a[1] or (a[0] != c[0] and c[1] <= a[1])):
                            R.ob("use", f"{short(k)} narrowing", bounded(f, bi, r["a"]), f"{w}: a number from the input is cut to {cr.tys(r['ty'])}", w)
                t = b["t"]; w = rel(f.where(t["sp"])) if isinstance(t.get("sp"), list) else rel(f.where())
                if t["k"] == "call" and t.get("f"):
                    path = strip_generics(t["f"].get("rpath") or t["f"]["path"])
                    ts = [a for a in t["args"] if T.tainted(k, fid, a)]
                    if not ts: continue
                    cnt += 1; R.saw("uses", f"{w} {t['f']['name']}")
                    if BAD.search(path) or BAD.search(strip_generics(t["f"]["path"])):
                        R.ob("use", f"{short(k)} {t['f']['name']}", all(bounded(f, bi, a) for a in ts), f"{w}: {t['f']['name']} with a number from the input, which may be as large as its type allows", w)
                elif t["k"] == "assert" and "ound" in str(t.get("m")):
                    ok = True
                    for st in b["s"]:
                        if st["k"] == "=" and st["r"]["r"] == "bin" and st["p"][0] == t["c"]["p"][0] and T.tainted(k, fid, st["r"]["a"]): ok = bounded(f, bi, st["r"]["a"])
                    R.ob("use", f"{short(k)} indexing", ok, f"{w}: indexing with a number from the input", w)
        R.ob("use", short(k), True, f"{cnt} uses")
    R.floor("anchor", "commands", 70); R.floor("anchor", "conversions", 1); R.floor("anchor", "functions handling such numbers", 15); R.floor("anchor", "uses", 15)
    R.assumptions += ["numbers enter integer computations only through the number crate's integer conversions", "foreign functions given such a number (skip, take, nth, comparisons, the table crate) accept every value"]
