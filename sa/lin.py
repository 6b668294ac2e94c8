"""Linear expressions over integer atoms and a conjunctive linear-inequality abstract domain.

The domain element is a finite conjunction of constraints `e <= 0` over integers.  Entailment is
decided by Gauss/Fourier-Motzkin elimination over the rationals with integer tightening (an own,
incomplete-but-sound procedure: "entailed" answers are always right)."""
from math import gcd

_akey = {}
def akey(a):
    k = _akey.get(a)
    if k is None:
        k = _akey[a] = repr(a)
    return k

class Lin:
    __slots__ = ("t", "c", "_h", "_k")
    def __init__(self, t, c=0):
        self.t = t; self.c = c; self._h = None; self._k = None
    @staticmethod
    def const(c): return Lin((), c)
    @staticmethod
    def atom(a): return Lin(((a, 1),), 0)
    @staticmethod
    def of(d, c):
        return Lin(tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: akey(x[0]))), c)
    def __add__(self, o):
        if isinstance(o, int): return Lin(self.t, self.c + o)
        if not o.t: return Lin(self.t, self.c + o.c)
        if not self.t: return Lin(o.t, self.c + o.c)
        d = dict(self.t)
        for a, k in o.t: d[a] = d.get(a, 0) + k
        return Lin.of(d, self.c + o.c)
    __radd__ = __add__
    def __neg__(self): return Lin(tuple((a, -k) for a, k in self.t), -self.c)
    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.t, self.c - o)
        return self + (-o)
    def __mul__(self, n): 
        if n == 0: return Lin((), 0)
        return Lin(tuple((a, k * n) for a, k in self.t), self.c * n)
    def is_const(self): return not self.t
    def __eq__(self, o): return isinstance(o, Lin) and self.t == o.t and self.c == o.c
    def __hash__(self):
        if self._h is None: self._h = hash((self.t, self.c))
        return self._h
    def __repr__(self):
        if self._k is None:
            s = ""
            for a, k in self.t:
                s += ("+" if k > 0 else "-") + ("" if abs(k) == 1 else f"{abs(k)}*") + astr(a)
            if self.c or not s: s += ("+" if self.c >= 0 and s else "") + str(self.c)
            self._k = s.lstrip("+")
        return self._k
    def atoms(self):
        return [a for a, _ in self.t]
    def subst(self, m):
        """Replace atoms by Lins; recurses into structured atoms."""
        ch = False; out = None
        acc = Lin((), self.c)
        for a, k in self.t:
            r = subst_atom(a, m)
            if r is None: acc = acc + Lin(((a, k),), 0)
            else: ch = True; acc = acc + r * k
        return acc if ch else self

def astr(a):
    if a[0] == "v": return str(a[1])
    if a[0] == "U": return f"U[{bstr(a[1])}]({a[2]})"
    if a[0] == "n": return f"|{bstr(a[1])}|"
    return "<" + " ".join(bstr(x) for x in a) + ">"

def bstr(b):
    if isinstance(b, tuple): return "(" + " ".join(bstr(x) for x in b) + ")"
    return str(b)

def subst_key(k, m):
    """Substitute inside a structured key (nested tuples that may hold Lins)."""
    if isinstance(k, Lin): return k.subst(m)
    if isinstance(k, tuple):
        ch = False; out = []
        for x in k:
            y = subst_key(x, m)
            if y is not x: ch = True
            out.append(y)
        return tuple(out) if ch else k
    return k

def subst_atom(a, m):
    r = m.get(a)
    if r is not None: return r
    if a[0] == "v": return None
    b = subst_key(a, m)
    if b is a or b == a: return None
    return Lin.atom(b)

def key_atoms(k, out):
    """All atoms occurring in a structured key."""
    if isinstance(k, Lin):
        for a, _ in k.t:
            if a not in out:
                out.add(a); key_atoms(a, out)
    elif isinstance(k, tuple):
        for x in k:
            if isinstance(x, (tuple, Lin)): key_atoms(x, out)

# ------------------------------------------------------------------ constraints: e <= 0

def _norm(d, c):
    g = 0
    for k in d.values(): g = gcd(g, abs(k))
    if g > 1:
        d = {a: k // g for a, k in d.items()}
        c = -((-c) // g)      # ceil(c/g): sum + c <= 0  ->  sum/g + ceil(c/g) <= 0 (integers)
    return d, c

FM_CAP = 400

def feasible(cons, cap=FM_CAP):
    """cons: iterable of Lin (each <= 0).  False only when certainly infeasible."""
    rows = []
    seen = set()
    for e in cons:
        if not e.t:
            if e.c > 0: return False
            continue
        d, c = _norm(dict(e.t), e.c)
        rows.append((d, c))
    return _fm(rows, cap)

def _dedupe(rows):
    best = {}
    for d, c in rows:
        k = frozenset(d.items())
        if k not in best or best[k][1] < c: best[k] = (d, c)
    return list(best.values())

def _elim_eqs(rows, keep=()):
    """Find pairs e<=0, -e<=0 with a unit coefficient, substitute."""
    while True:
        idx = {}
        hit = None
        for i, (d, c) in enumerate(rows):
            idx[frozenset(d.items())] = (i, c)
        for i, (d, c) in enumerate(rows):
            nk = frozenset((a, -k) for a, k in d.items())
            j = idx.get(nk)
            if j is None: continue
            # d + c <= 0 and -d + cj <= 0  ->  cj <= d <= -c
            if j[1] > -c: return None
            if j[1] == -c:
                for a, k in d.items():
                    if abs(k) == 1 and a not in keep:
                        hit = (i, a, k); break
                if hit: break
        if not hit: return rows
        i, a, k = hit
        d, c = rows[i]
        # a = -(rest + c)/k
        rest = {x: -v * k for x, v in d.items() if x != a}
        cc = -c * k
        out = []
        for (d2, c2) in rows:
            ka = d2.get(a)
            if not ka:
                out.append((d2, c2)); continue
            nd = {x: v for x, v in d2.items() if x != a}
            for x, v in rest.items():
                nv = nd.get(x, 0) + ka * v
                if nv: nd[x] = nv
                else: nd.pop(x, None)
            nc = c2 + ka * cc
            if not nd:
                if nc > 0: return None
                continue
            out.append(_norm(nd, nc))
        rows = _dedupe(out)

def _fm(rows, cap, keep=()):
    """Eliminate all atoms not in keep.  Returns False if infeasible; with keep: remaining rows."""
    rows = _dedupe(rows)
    rows = _elim_eqs(rows, keep)
    if rows is None: return False
    while True:
        cnt = {}
        for d, c in rows:
            for a, k in d.items():
                if a in keep: continue
                p = cnt.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not cnt: break
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], akey(x)))
        pos = [r for r in rows if r[0].get(a, 0) > 0]
        neg = [r for r in rows if r[0].get(a, 0) < 0]
        out = [r for r in rows if a not in r[0]]
        if len(pos) * len(neg) > cap * 4:
            # give up on precision for this atom: drop its rows (sound)
            rows = out
            continue
        for d1, c1 in pos:
            k1 = d1[a]
            for d2, c2 in neg:
                k2 = -d2[a]
                g = gcd(k1, k2); m1 = k2 // g; m2 = k1 // g
                nd = {}
                for x, v in d1.items():
                    if x != a: nd[x] = v * m1
                for x, v in d2.items():
                    if x != a:
                        nv = nd.get(x, 0) + v * m2
                        if nv: nd[x] = nv
                        else: nd.pop(x, None)
                nc = c1 * m1 + c2 * m2
                if not nd:
                    if nc > 0: return False
                    continue
                out.append(_norm(nd, nc))
        rows = _dedupe(out)
        if len(rows) > cap * 3:
            rows.sort(key=lambda r: len(r[0])); rows = rows[:cap * 3]
    for d, c in rows:
        if not d and c > 0: return False
    return rows if keep else True

def project(cons, keep):
    """Constraints on the atoms of `keep` implied by cons.  None if infeasible."""
    rows = []
    for e in cons:
        if not e.t:
            if e.c > 0: return None
            continue
        rows.append(_norm(dict(e.t), e.c))
    r = _fm(rows, FM_CAP, keep=frozenset(keep))
    if r is False: return None
    return [Lin.of(d, c) for d, c in r] if r is not True else []

def relevant(cons, atoms):
    """Connected component of constraints around the atoms."""
    atoms = set(atoms)
    rest = list(cons); out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for e in rest:
            if any(a in atoms for a, _ in e.t):
                out.append(e); atoms.update(e.atoms()); ch = True
            else: nr.append(e)
        rest = nr
    return out

# ------------------------------------------------------------------ equalities implied by two systems

def equalities(cons):
    s = set(cons)
    out = []
    for e in cons:
        if e.t and -e in s and -e not in out: out.append(e)
    return out

def common_eqs(c1, c2):
    """Linear equalities implied by the explicit equalities of both systems (intersection of the row spaces)."""
    from fractions import Fraction as F
    e1 = equalities(c1); e2 = equalities(c2)
    if not e1 or not e2: return []
    ats = sorted({a for e in e1 + e2 for a in e.atoms()}, key=akey)
    def vec(e):
        d = dict(e.t); return [F(d.get(a, 0)) for a in ats] + [F(e.c)]
    n = len(ats) + 1
    # Zassenhaus: rows [u|u] for u in E1, [w|0] for w in E2; rows of the echelon form with zero left half span the intersection
    rows = [vec(e) * 2 for e in e1] + [vec(e) + [F(0)] * n for e in e2]
    r = 0
    for col in range(2 * n):
        piv = next((i for i in range(r, len(rows)) if rows[i][col] != 0), None)
        if piv is None: continue
        rows[r], rows[piv] = rows[piv], rows[r]
        p = rows[r][col]; rows[r] = [x / p for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][col] != 0:
                f = rows[i][col]; rows[i] = [x - f * y for x, y in zip(rows[i], rows[r])]
        r += 1
    out = []
    for row in rows:
        if any(x != 0 for x in row[:n]): continue
        v = row[n:]
        if all(x == 0 for x in v[:-1]): continue
        m = 1
        for x in v: m = m * x.denominator // gcd(m, x.denominator)
        d = {a: int(x * m) for a, x in zip(ats, v) if x != 0}
        out.append(Lin.of(d, int(v[-1] * m)))
    return out
