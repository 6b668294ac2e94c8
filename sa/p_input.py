"""InputBuffer: the editable line (text, cursor, change flag)."""
from lin import Lin
import absint
from absint import *
from cls import *
from core import crate, rel
from p_history import setup, args_of, apply_of, observe, need, panics, finish

ZERO = Lin.const(0)
API_MUT = ("clear", "insert", "insert_str", "backspace", "delete", "move_start", "move_left", "move_right", "reset_buf_changed")
API_RD = ("buf_pos", "ch_pos", "buffer_changed")
EXTRA = frozenset(map(ord, "-_"))

def word_facts(key, val):
    """The character at key is (not) a word character: alphanumeric, '-' or '_'."""
    al = Pred("atom", ("is_alphanumeric", key)); ex = Pred("in", (key, EXTRA))
    return [[(al, True)], [(al, False), (ex, True)]] if val else [[(al, False), (ex, False)]]

class Setup:
    def __init__(s, R):
        absint.REGIONS.clear()
        s.cr, s.I, s.tid, s.mut, s.rd, s.ctor = setup("InputBuffer")
        s.ok = need(R, s.mut, *API_MUT) & need(R, s.rd, *API_RD) & need(R, s.ctor, "new")
        s.vs = {f.name: f for f in s.cr.fns if f.path.split("::")[-2:-1] == ["vspec"]}
        s.ok &= need(R, s.vs, "text", "chars", "text_before")
        if not s.ok: return
        I = s.I
        s.inv = Inv(I, s.tid, [(x, r) for x, r in I.call_fn(State(), s.ctor["new"], [], 0)], [(n, apply_of(f)) for n, f in sorted(s.mut.items())])
        s.pre = []
        for st in s.inv.states():
            # the public view of each object state; split until the flag is definite
            for s1, t in observe(I, st, s.vs["text"]):
                for s2, p in observe(I, s1, s.rd["ch_pos"]):
                    for s3, fl in observe(I, s2, s.rd["buffer_changed"]):
                        for s4, v in s3.split(fl): s.pre.append((s4, t, p, v))
        for st in s.inv.states(): R.saw("object states", f"{st.mem[SELF]!r} where {show(st)}")
        R.floor("anchor", "object states", 2)
    def view(s, st):
        I = s.I; out = []
        for s1, t in observe(I, st, s.vs["text"]):
            for s2, p in observe(I, s1, s.rd["ch_pos"]):
                for s3, fl in observe(I, s2, s.rd["buffer_changed"]):
                    for s4, v in s3.split(fl): out.append((s4, t, p, v))
        return out
    def run(s, name, pre, args):
        f = s.mut[name]
        return s.I.call_fn(pre.copy(), f, [MRef(SELF, ())] + args, 0)
    def str_arg(s, key):
        return VRef(s.I.mkseq("str", key, s.I.ty_id("char")))
    def mvmt(s, variant, payload=None):
        t = s.cr.types[s.mut["move_left"].locals[2]["ty"]]
        for i, v in enumerate(t["variants"]):
            if v["name"] == variant: return Agg(s.mut["move_left"].locals[2]["ty"], i, () if payload is None else (payload,))
        raise KeyError(variant)

def parts(I, st, t, *cuts):
    """Cut the segments of t at the given positions: [(st, [segs...])]"""
    out = [(st, [], t.segs, ZERO)]
    for c in cuts:
        nxt = []
        for s, acc, rest, off in out:
            for s2, l, r in I.seq_split(s, Seq(t.kind, rest, t.ety), c - off): nxt.append((s2, acc + [l], r, c))
        out = nxt
    return [(s, acc + [rest]) for s, acc, rest, off in out]

def check_op(R, S, rule, name, pre, args, expect, label=""):
    """expect(st, t, p) -> [(case name, condition|None, t', p', changed|None)]"""
    I = S.I
    for st0, t, p, fl in S.pre:
        for s1, _ in S.run(name, st0, args):
            for s2, t2, p2, fl2 in S.view(s1):
                for cname, cond, want, wp, wf in expect(t, p):
                    for s3 in ([s2.copy()] if cond is None else s2.copy().assume(cond, True)):
                        if s3.infeasible(): continue
                        for s4, wt in want(s3):
                            key = f"{name}{label} {cname}"
                            wh = rel(S.mut[name].where())
                            R.ob(rule["text"], key, seq_equal(I, s4, t2, wt), f"text becomes {t2!r}, expected {wt!r}; {show(s4)}", wh)
                            R.ob(rule["pos"], key, s4.entails_eq(p2 - wp), f"cursor becomes {p2!r}, expected {wp!r}; {show(s4)}", wh)
                            ef = fl if wf is None else wf
                            R.ob(rule["flag"], key, fl2 == ef, f"change flag {fl} -> {fl2}, expected {ef}; {show(s4)}", wh)

def same(t): return lambda s: [(s, t)]

def edit(R):
    R.rule("anchor", "the analysed API exists")
    R.rule("text", "insertion puts exactly the given characters at the cursor; backspace / delete remove exactly the character before / after it; nothing else changes the text; clear empties it")
    R.rule("cursor", "the cursor lands just after inserted text, one left after backspace, stays on delete, and is 0 after clear; it never exceeds the length")
    R.rule("flag", "the change flag is set by every edit and by nothing else, and only the reset clears it")
    R.rule("observe", "reading (text, prefix, cursor, flag) changes nothing and returns the whole text in order")
    R.rule("no-panic", "no panic is reachable in any history of edits")
    S = Setup(R)
    if not S.ok: return
    I = S.I; rules = {"text": "text", "pos": "cursor", "flag": "flag"}
    ch = I.mkval(("arg", "ch"), I.ty_id("char"))
    sarg = S.str_arg(("arg", "s")); sq = sarg.v; n_s = I.seq_len(sq)
    def kind(t, segs): return Seq(t.kind, segs, t.ety)
    check_op(R, S, rules, "insert", None, [ch], lambda t, p: [("", None, lambda s: [(x, kind(t, a + (("el", ch),) + b)) for x, (a, b) in parts(I, s, t, p)], p + 1, True)])
    check_op(R, S, rules, "insert_str", None, [sarg], lambda t, p: [
        ("nothing", Pred("eq", n_s), same(t), p, None),
        ("text", Pred("le", -n_s + 1), lambda s: [(x, kind(t, a + sq.segs + b)) for x, (a, b) in parts(I, s, t, p)], p + n_s, True)])
    check_op(R, S, rules, "backspace", None, [], lambda t, p: [
        ("at start", Pred("eq", p), same(t), p, None),
        ("inside", Pred("le", -p + 1), lambda s: [(x, kind(t, a + c)) for x, (a, b, c) in parts(I, s, t, p - 1, p)], p - 1, True)])
    check_op(R, S, rules, "delete", None, [], lambda t, p: [
        ("at end", Pred("eq", p - I.seq_len(t)), same(t), p, None),
        ("inside", Pred("le", p - I.seq_len(t) + 1), lambda s: [(x, kind(t, a + c)) for x, (a, b, c) in parts(I, s, t, p, p + 1)], p, True)])
    check_op(R, S, rules, "clear", None, [], lambda t, p: [("", None, same(kind(t, ())), ZERO, True)])
    check_op(R, S, rules, "reset_buf_changed", None, [], lambda t, p: [("", None, same(t), p, False)])
    for st0, t, p, fl in S.pre:
        R.ob("cursor", "within text", st0.entails_le(p - I.seq_len(t)) and st0.entails_le(-p), f"cursor {p!r} of {I.seq_len(t)!r} characters; {show(st0)}")
        for s1, tb in observe(I, st0.copy(), S.vs["text_before"]):
            for s2, (a, b) in parts(I, s1, t, p): R.ob("observe", "text before cursor", seq_equal(I, s2, tb, kind(t, a)), f"{tb!r}")
        for s1, cs in observe(I, st0.copy(), S.vs["chars"]): R.ob("observe", "chars", seq_equal(I, s1, deref(I, s1, cs), t), f"{cs!r}")
        for f in S.rd.values():
            if f.name in API_RD:
                for s1, _ in observe(I, st0.copy(), f): R.ob("observe", f"{f.name} pure", s1.mem[SELF] == st0.mem[SELF], "modifies the buffer")
    for st, r in I.call_fn(State(), S.ctor["new"], [], 0):
        st = st.copy(); st.mem[SELF] = r
        for s2, t, p, fl in S.view(st): R.ob("observe", "new", s2.entails_eq(I.seq_len(t)) and s2.entails_eq(p) and fl is False, f"new buffer is {t!r} at {p!r} changed={fl}")
    panics(R, I, "no-panic")
    R.saw("methods", *S.mut, *S.rd); R.floor("anchor", "methods", 14)
    finish(R, I)

def bytepos(R):
    R.rule("anchor", "the analysed API exists")
    R.rule("bytes", "buf_pos is the UTF-8 length of the text before the cursor")
    R.rule("no-panic", "no panic is reachable")
    S = Setup(R)
    if not S.ok: return
    I = S.I
    I.obl.clear()
    for st0, t, p, fl in S.pre:
        for s1, b in observe(I, st0.copy(), S.rd["buf_pos"]):
            for s2, (a, _) in parts(I, s1, t, p):
                R.ob("bytes", f"buf_pos {st0.mem[SELF]!r}", isinstance(b, Lin) and s2.entails_eq(b - I.seq_bytes(Seq(t.kind, a, t.ety))), f"buf_pos = {b!r}; {show(s2)}", rel(S.rd["buf_pos"].where()))
    panics(R, I, "no-panic"); finish(R, I)

def regions_fwd(lo, hi, a, b, sign):
    """Characters from lo upwards (sign 1) or from hi-1 downwards (-1): `a` leading non-word, then up to `b` word characters."""
    def f(k):
        i = (k - lo) if sign > 0 else (hi - 1 - k)      # index in walking order
        return [("skip", [i - a + 1, -i], lambda key: word_facts(key, False)),
                ("word", [a - i, i - b + 1], lambda key: word_facts(key, True)),
                ("stop", [i - b, b - i], lambda key: word_facts(key, False)),
                ("beyond", [b - i + 1], lambda key: [[]]),
                ("before", [i + 1], lambda key: [[]])]
    return f

def word_split(st, n, pfx):
    """Fix the number a of leading non-word characters and b of the following word run's end, of n characters."""
    a = Lin.atom(("v", ("inp", pfx, "a"))); b = Lin.atom(("v", ("inp", pfx, "b")))
    out = []
    s = st.copy()
    if s.add_le(-a) and s.add_eq(a - n) and s.add_eq(b - a): out.append((s, a, b))
    s = st.copy()
    s.cons = s.cons + (-a, a - n + 1, a - b + 1, b - n)
    if not s.infeasible([-a]): out.append((s, a, b))
    return out

def moves(R):
    R.rule("anchor", "the analysed API exists")
    R.rule("text", "moving never changes the text")
    R.rule("char", "moving by n characters shifts the cursor by n, clamped to the text")
    R.rule("word", "moving by word skips the non-word characters next to the cursor and then the whole run of word characters (alphanumeric, '-', '_')")
    R.rule("start", "move_start puts the cursor at 0")
    R.rule("flag", "moving never touches the change flag")
    R.rule("no-panic", "no panic is reachable for any text, cursor and distance")
    S = Setup(R)
    if not S.ok: return
    I = S.I
    n = I.mkval(("arg", "n"), I.ty_id("usize"))
    def rules(r): return {"text": "text", "pos": r, "flag": "flag"}
    check_op(R, S, rules("start"), "move_start", None, [], lambda t, p: [("", None, same(t), ZERO, None)])
    m = S.mvmt("Ch", n)
    check_op(R, S, rules("char"), "move_left", None, [m], lambda t, p: [("short", Pred("le", n - p), same(t), p - n, None), ("clamped", Pred("le", p - n + 1), same(t), ZERO, None)])
    check_op(R, S, rules("char"), "move_right", None, [m], lambda t, p: [
        ("short", Pred("le", n + p - I.seq_len(t)), same(t), p + n, None), ("clamped", Pred("le", I.seq_len(t) - p - n + 1), same(t), I.seq_len(t), None)])
    w = S.mvmt("Word"); saved = S.pre
    for name, sign in (("move_left", -1), ("move_right", 1)):
        for st0, t, p, fl in saved:
            tn = I.norm_segs(st0, t.segs)
            cases = []
            if not tn: cases = [(st0, ZERO, ZERO)]
            else:
                if len(tn) != 1 or tn[0][0] != "run" or tn[0][2] != ZERO: R.ob("word", f"{name} text shape", False, f"text is {t!r}"); continue
                base = tn[0][1]
                lo, hi = (p, I.seq_len(t)) if sign > 0 else (ZERO, p)
                for s, a, b in word_split(st0, hi - lo, name):
                    cases.append((s, a, b))
                if cases: absint.REGIONS[base] = regions_fwd(lo, hi, cases[0][1], cases[0][2], sign)
            for s, a, b in cases:
                S.pre = [(s, t, p, fl)]
                check_op(R, S, rules("word"), name, None, [w], lambda t, p: [("word", None, same(t), p + b * sign, None)])
            absint.REGIONS.clear()
    panics(R, I, "no-panic"); finish(R, I)
