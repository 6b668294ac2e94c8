"""Loader and pretty printer for the MIR facts written by the ogma-facts driver."""
import json, os, re

def strip_generics(p):
    """`alloc::vec::Vec::<T, A>::push` -> `alloc::vec::Vec::push` (keeps `<T as Trait>::m` heads)."""
    out, i, n = [], 0, len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl ", i):
            d, j = 0, i + 2
            while j < n:
                if p[j] == "<": d += 1
                elif p[j] == ">" and p[j-1] != "-":
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1
            continue
        out.append(p[i]); i += 1
    return "".join(out)

class Fn:
    __slots__ = ("crate","id","path","name","local","args","span","closure_of","impl_trait","impl_self","vis","unsafe","unsafe_blocks","body","promoted","blocks","locals","nargs","raw","_cache")
    def __init__(self, crate, j):
        self.crate = crate; self.raw = j
        for k in ("id","path","name","local","args","span","closure_of","impl_trait","impl_self","vis","unsafe","unsafe_blocks","body","promoted"):
            setattr(self, k, j.get(k))
        self.blocks = self.body["blocks"]; self.locals = self.body["locals"]; self.nargs = self.body["nargs"]
        self._cache = {}
    def __repr__(self): return f"Fn({self.path})"
    @property
    def file(self): return self.span[0]
    def where(self, sp=None):
        sp = sp or self.span
        return f"{sp[0]}:{sp[1]}"

class Crate:
    def __init__(self, path):
        j = json.load(open(path))
        self.name = j["crate"]; self.types = j["types"]; self.statics = j["statics"]; self.impls = j["impls"]; self.adts = j["adts"]
        self.fns = [Fn(self, f) for f in j["fns"]]
        self.by_path = {}
        for f in self.fns: self.by_path.setdefault(f.path, []).append(f)
    def ty(self, i): return self.types[i]
    def tys(self, i): return self.types[i]["s"]
    def find(self, pat, local=True):
        r = re.compile(pat)
        return [f for f in self.fns if (f.local or not local) and r.search(f.path)]
    def one(self, pat):
        l = self.find(pat)
        if len(l) != 1: raise KeyError(f"{pat}: {[f.path for f in l]}")
        return l[0]

def pl(p):
    s = f"_{p[0]}"
    for e in p[1]:
        if e == "*": s = f"(*{s})"
        elif e == "?": s += ".?"
        elif e[0] == "f": s += f".{e[1]}"
        elif e[0] == "i": s += f"[_{e[1]}]"
        elif e[0] == "d": s += f" as v{e[1]}"
        else: s += str(e)
    return s

def const(c, cr):
    k = c["k"]
    if k == "int": return f"{c.get('v', c.get('big'))}" + (f"/*{c['name']}*/" if "name" in c else "")
    if k in ("str","bytes"): return json.dumps(c["v"])
    if k == "fn": return "fn " + c["callee"]["path"]
    if k == "adt": return cr.tys(c["ty"]) + "#" + str(c.get("variant")) + "{" + ",".join(const(f, cr) for f in c["fields"]) + "}"
    if k == "ref": return "&" + const(c["v"], cr)
    return k + ":" + cr.tys(c["ty"]) + (" " + c.get("name", "") ) + (c.get("path",""))

def opnd(o, cr):
    if o["o"] == "const": return const(o["c"], cr)
    if o["o"] == "rtcheck": return "rtcheck"
    return ("move " if o["o"] == "move" else "") + pl(o["p"])

def rv(r, cr):
    k = r["r"]
    if k == "use": return opnd(r["a"], cr)
    if k == "ref": return ("&raw " if r.get("raw") else "&") + ("mut " if r["mut"] else "") + pl(r["p"])
    if k == "bin": return f"{r['op']}({opnd(r['a'],cr)}, {opnd(r['b'],cr)})"
    if k == "un": return f"{r['op']}({opnd(r['a'],cr)})"
    if k == "cast": return f"{opnd(r['a'],cr)} as {cr.tys(r['ty'])} [{r['kind']}]"
    if k == "discr": return f"discr({pl(r['p'])})"
    if k == "agg": return f"{r['kind']} {cr.tys(r['ty'])}#{r.get('variant')}(" + ", ".join(opnd(o,cr) for o in r["ops"]) + ")"
    return json.dumps(r)

def callee_str(t, cr):
    f = t.get("f")
    if not f: return "(*" + opnd(t["ind"], cr) + ")"
    s = f.get("rpath") or f["path"]
    if f.get("kind") in ("virtual","unresolved","intrinsic") or str(f.get("kind","")).startswith("shim"): s = f["path"] + "{" + f["kind"] + "}"
    if f.get("id") is not None: s += f"@{f['id']}"
    return s

def term(t, cr):
    k = t["k"]
    if k == "goto": return f"goto {t['to']}"
    if k == "switch": return f"switch {opnd(t['d'],cr)} " + ", ".join(f"{v}->{b}" for v,b in t["v"]) + f", else {t['else']}"
    if k == "drop": return f"drop {pl(t['p'])}: {cr.tys(t['ty'])}{'' if t['needs'] else ' (noop)'} -> {t['to']}"
    if k == "call": return f"{pl(t['dest'])} = {callee_str(t,cr)}(" + ", ".join(opnd(a,cr) for a in t["args"]) + f") -> {t.get('to')}"
    if k == "assert": return f"assert({opnd(t['c'],cr)} == {t['exp']}, {t['m']}) -> {t['to']}"
    return k

def show(f, clean=False, out=None):
    cr = f.crate
    L = [f"fn {f.path} #{f.id} nargs={f.nargs} {f.where()}"]
    for i, l in enumerate(f.locals): L.append(f"  let _{i}: {cr.tys(l['ty'])}  {l.get('name') or ''}")
    for i, b in enumerate(f.blocks):
        if b.get("c") and not clean: continue
        L.append(f"  bb{i}{' (cleanup)' if b.get('c') else ''}:")
        for s in b["s"]:
            if s["k"] == "=": L.append(f"    {pl(s['p'])} = {rv(s['r'],cr)}")
            elif s["k"] in ("dead","live"): pass
            else: L.append(f"    {s['k']}")
        L.append("    " + term(b["t"], cr))
    return "\n".join(L)

if __name__ == "__main__":
    import sys
    c = Crate(sys.argv[1])
    for f in c.fns:
        if len(sys.argv) < 3: print(f.id, f.path, "" if f.local else "EXT")
        elif re.search(sys.argv[2], f.path): print(show(f, len(sys.argv) > 3)); print()
