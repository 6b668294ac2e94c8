"""Control-flow graph utilities over MIR facts."""

def succs(t, unwind=False):
    k = t["k"]
    out = []
    if k == "goto": out = [t["to"]]
    elif k == "switch": out = [b for _, b in t["v"]] + [t["else"]]
    elif k in ("drop", "assert"): out = [t["to"]]
    elif k == "call": out = [t["to"]] if t.get("to") is not None else []
    if unwind and isinstance(t.get("uw"), int): out = out + [t["uw"]]
    return out

def op_places(o):
    return [o["p"]] if o["o"] in ("copy", "move") else []

def rv_operands(r):
    k = r["r"]
    if k in ("use", "repeat", "cast", "un"): return [r["a"]]
    if k == "bin": return [r["a"], r["b"]]
    if k == "agg": return r["ops"]
    return []

def rv_places(r):
    """Places read or borrowed by an rvalue."""
    out = []
    for o in rv_operands(r): out += op_places(o)
    if r["r"] in ("ref", "discr"): out.append(r["p"])
    return out

def place_locals(p):
    return [p[0]] + [e[1] for e in p[1] if isinstance(e, list) and e[0] == "i"]

class Cfg:
    def __init__(self, fn, unwind=False):
        self.fn = fn
        n = len(fn.blocks)
        self.succ = [succs(b["t"], unwind) for b in fn.blocks]
        self.pred = [[] for _ in range(n)]
        seen = set(); order = []
        stack = [(0, iter(self.succ[0]))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); stack.pop()
        self.reach = seen
        self.rpo = order[::-1]
        for b in seen:
            for s in self.succ[b]: self.pred[s].append(b)
        self._dom()
        self._loops()
        self._live = None

    def _dom(self):
        idx = {b: i for i, b in enumerate(self.rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]: x = idom[x]
                                while idx[y] > idx[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b: return True
            if b == 0 or b not in self.idom: return False
            b = self.idom[b]

    def _loops(self):
        self.loops = {}
        for b in self.reach:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body: continue
                        body.add(x); work += [p for p in self.pred[x]]

    def live_in(self, bb):
        if self._live is None: self._liveness()
        return self._live[bb]

    def _liveness(self):
        fn = self.fn
        use = {}; dfn = {}
        for b in self.reach:
            u, d = set(), set()
            blk = fn.blocks[b]
            def rd(p):
                for l in place_locals(p):
                    if l not in d: u.add(l)
            for s in blk["s"]:
                if s["k"] == "=":
                    for p in rv_places(s["r"]): rd(p)
                    p = s["p"]
                    if p[1]: rd(p)
                    else: d.add(p[0])
                elif s["k"] == "dead": d.add(s["l"])
                elif s["k"] == "setdiscr": rd(s["p"])
            t = blk["t"]
            if t["k"] == "switch":
                for p in op_places(t["d"]): rd(p)
            elif t["k"] == "assert":
                for p in op_places(t["c"]): rd(p)
            elif t["k"] == "drop": rd(t["p"])
            elif t["k"] == "call":
                for a in t["args"]:
                    for p in op_places(a): rd(p)
                if t.get("ind"):
                    for p in op_places(t["ind"]): rd(p)
                if t["dest"][1]: rd(t["dest"])
                else: d.add(t["dest"][0])
            elif t["k"] == "return": rd([0, []])
            use[b], dfn[b] = u, d
        live = {b: set() for b in self.reach}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]: out |= live[s]
                n = use[b] | (out - dfn[b])
                if n != live[b]: live[b] = n; ch = True
        self._live = live
