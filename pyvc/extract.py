"""Parts of strings (match groups, slices, split parts) as regular extraction
functions.  An extraction is an automaton over text with one marked segment;
on the strings a path allows it must be total and unambiguous, and two
extractions that agree there are the same term."""
import time, z3
from .values import *
from . import lang
from .lang import MAXCP

OPEN, CLOSE = MAXCP, MAXCP + 1
G = ((OPEN, OPEN), (CLOSE, CLOSE))


class NotRegular(Exception):
    pass


class Composite(lang.Auto):
    """runs b on the segment marked by a; markers of b stay visible"""
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.init = self.close({(0, a.init, None)})
        self.memo = {}

    def close(self, st):
        out = set(st)
        for ph, x, y in list(st):
            if ph == 0:
                x2 = self.a.step(x, OPEN)
                if x2: out.add((1, x2, self.b.init))
        for ph, x, y in list(out):
            if ph == 1:
                x2 = self.a.step(x, CLOSE)
                if x2: out.add((2, x2, y))
        return frozenset(out)

    def step(self, st, c):
        k = (st, c)
        if k not in self.memo:
            out = set()
            for ph, x, y in st:
                if c >= MAXCP:
                    if ph == 1:
                        y2 = self.b.step(y, c)
                        if y2 != frozenset(): out.add((1, x, y2))
                    continue
                x2 = self.a.step(x, c)
                if x2 == frozenset(): continue
                if ph == 1:
                    y2 = self.b.step(y, c)
                    out.add((1, x2, y2))
                else: out.add((ph, x2, y))
            self.memo[k] = self.close(out)
        return self.memo[k]

    def accept(self, st): return any(ph == 2 and self.a.accept(x) and self.b.accept(y) for ph, x, y in st)

    def cuts(self):
        yield from self.a.cuts()
        yield from self.b.cuts()


class Plain(lang.Auto):
    """unmarked view of a marked automaton: some marking exists"""
    def __init__(self, a):
        self.a = a
        self.init = self.close({(0, a.init)})
        self.memo = {}
    def close(self, st):
        out = set(st)
        for ph, x in list(st):
            if ph == 0:
                y = self.a.step(x, OPEN)
                if y: out.add((1, y))
        for ph, x in list(out):
            if ph == 1:
                y = self.a.step(x, CLOSE)
                if y: out.add((2, y))
        return frozenset(out)
    def step(self, st, c):
        k = (st, c)
        if k not in self.memo: self.memo[k] = self.close({(ph, self.a.step(x, c)) for ph, x in st if self.a.step(x, c)})
        return self.memo[k]
    def accept(self, st): return any(ph == 2 and self.a.accept(x) for ph, x in st)
    def cuts(self): return self.a.cuts()


def marked(pattern, group, how="fullmatch", flags=0):
    return lang.ReAuto(pattern, how, flags, groups={group: G})


def reps_of(autos):
    """one representative per behavioural class of characters"""
    cs = lang.classes(autos)
    return [c for c in cs if c < MAXCP]


LIMIT = 30000


def small_reps(autos):
    reps = reps_of(autos)
    flat = []
    def leaves(a):
        if isinstance(a, (Composite,)): leaves(a.a); leaves(a.b)
        elif isinstance(a, Plain): leaves(a.a)
        else: flat.append(a)
    for a in autos: leaves(a)
    sig = {}
    edges = []
    for a in flat:
        if isinstance(a, lang.ReAuto): edges.append(sorted({iv for es in a.n.ch for iv, _ in es}))
        else: edges.append(None)
    out = {}
    for r in reps:
        k = []
        for a, e in zip(flat, edges):
            if e is not None: k.append(tuple(lang.has(iv, r) for iv in e) + (r == 10,))
            elif isinstance(a, lang.IntAuto): k.append(a.kind(r))
            elif isinstance(a, lang.LitAuto): k.append(r if chr(r) in a.s else -1)
            elif isinstance(a, (lang.LenAuto, lang.ModLenAuto)): k.append(0)
            elif isinstance(a, (lang.AllCharsAuto, lang.SomeCharAuto)): k.append(lang.has(a.iv, r))
            else: k.append(r)
        k = tuple(k)
        if k not in out or (not 32 < out[k] < 127 and 32 < r < 127): out[k] = r
    return sorted(out.values())


class Ctx(lang.Auto):
    """conjunction of literals (automaton, sign)"""
    def __init__(self, lits):
        self.lits = lits
        self.init = tuple(a.init for a, _ in lits)
    def step(self, st, c): return tuple(a.step(s, c) for (a, _), s in zip(self.lits, st))
    def accept(self, st): return all(bool(a.accept(s)) == sg for (a, sg), s in zip(self.lits, st))
    def dead(self, st): return any(sg and s == frozenset() for (a, sg), s in zip(self.lits, st))


def total(m, ctx):
    p = Plain(m)
    return _bfs((ctx.init, p.init), small_reps([a for a, _ in ctx.lits] + [p]), lambda st, c: (ctx.step(st[0], c), p.step(st[1], c)),
                lambda st: ctx.accept(st[0]) and not p.accept(st[1]), lambda st: ctx.dead(st[0]))


def _bfs(st0, reps, step, bad, dead):
    """True if no bad state is reachable"""
    seen, todo = {st0}, [st0]
    t0 = time.time()
    while todo:
        st = todo.pop()
        if bad(st): return False
        for r in reps:
            t = step(st, r)
            if t in seen or dead(t): continue
            seen.add(t); todo.append(t)
        if len(seen) > LIMIT or time.time() - t0 > 20: raise NotRegular("too many states")
    return True


def unambiguous(m, ctx):
    reps = small_reps([a for a, _ in ctx.lits] + [m])
    def adv(x, ph):
        """states reachable by placing 0, 1 or 2 markers here"""
        out = [(0, x, ph)]
        if ph == 0:
            y = m.step(x, OPEN)
            if y:
                out.append((1, y, 1))
                z = m.step(y, CLOSE)
                if z: out.append((2, z, 2))
        elif ph == 1:
            y = m.step(x, CLOSE)
            if y: out.append((1, y, 2))
        return out
    def spread(st):
        c, a, pa, b, pb, d = st
        for na, a2, pa2 in adv(a, pa):
            for nb, b2, pb2 in adv(b, pb):
                yield (c, a2, pa2, b2, pb2, d or (pa2 != pb2))
    seen, todo = set(), []
    def push(st):
        for s in spread(st):
            if s not in seen:
                seen.add(s); todo.append(s)
    t0 = time.time()
    push((ctx.init, m.init, 0, m.init, 0, False))
    while todo:
        c, a, pa, b, pb, d = todo.pop()
        if d and pa == 2 and pb == 2 and m.accept(a) and m.accept(b) and ctx.accept(c): return False
        for r in reps:
            c2, a2, b2 = ctx.step(c, r), m.step(a, r), m.step(b, r)
            if not a2 or not b2 or ctx.dead(c2): continue
            push((c2, a2, pa, b2, pb, d))
        if len(seen) > LIMIT or time.time() - t0 > 20: raise NotRegular("too many states")
    return True


def equal(m1, m2, ctx):
    reps = small_reps([a for a, _ in ctx.lits] + [m1, m2])
    seen, todo = set(), [(ctx.init, m1.init, m2.init, 0)]
    t0 = time.time()
    seen.add(todo[0])
    while todo:
        c, a, b, ph = todo.pop()
        if ctx.accept(c) and ph == 2 and bool(a and m1.accept(a)) != bool(b and m2.accept(b)): return False
        nxt = []
        if ph < 2:
            s = OPEN if ph == 0 else CLOSE
            nxt.append((c, m1.step(a, s), m2.step(b, s), ph + 1))
        for r in reps: nxt.append((ctx.step(c, r), m1.step(a, r), m2.step(b, r), ph))
        for t in nxt:
            if (not t[1] and not t[2]) or ctx.dead(t[0]): continue
            if t not in seen: seen.add(t); todo.append(t)
        if len(seen) > LIMIT or time.time() - t0 > 20: raise NotRegular("too many states")
    return True


def segments(m, ctx, limit=300):
    """the possible segment texts on ctx, or None when there are too many.
    characters are grouped by behaviour; exact only for singleton classes,
    so every digit is its own class"""
    lits = [a for a, _ in ctx.lits]
    reps = small_reps(lits + [m, lang.IntAuto()])
    st0 = (ctx.init, m.init, 0)
    succ, todo, pred, final = {}, [st0], {}, []
    t0 = time.time()
    while todo:
        st = todo.pop()
        if st in succ: continue
        c, a, ph = st
        succ[st] = nxt = []
        if ph == 2 and m.accept(a) and ctx.accept(c): final.append(st)
        if ph < 2:
            a2 = m.step(a, OPEN if ph == 0 else CLOSE)
            if a2: nxt.append((None, (c, a2, ph + 1)))
        for r in reps:
            c2, a2 = ctx.step(c, r), m.step(a, r)
            if a2 and not ctx.dead(c2): nxt.append((r, (c2, a2, ph)))
        for _, t in nxt:
            pred.setdefault(t, []).append(st)
            if t not in succ: todo.append(t)
        if len(succ) > LIMIT or time.time() - t0 > 10: return None
    live, todo = set(), list(final)
    while todo:
        st = todo.pop()
        if st in live: continue
        live.add(st); todo.extend(pred.get(st, ()))
    out, seen, todo = set(), set(), [(s, "") for s in live if s[2] == 1 and any(p[2] == 0 for p in pred.get(s, ()))]
    while todo:
        st, txt = todo.pop()
        if (st, txt) in seen or st not in live: continue
        seen.add((st, txt))
        if len(seen) > 100000 or len(txt) > 12 or len(out) > limit: return None
        for r, t in succ[st]:
            if r is None:
                if t in live: out.add(txt)
            else: todo.append((t, txt + chr(r)))
    return out


# ------------------------------------------------------------ engine side ----
def base(eng, t):
    """(base term, marked automaton of t in base or None)"""
    if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in eng.exts:
        return t.arg(0), eng.exts[t.decl().name()][0]
    return t, None


def context(eng, t):
    """regular facts about the string term t on this path"""
    pos = []
    def walk(c, sign):
        if not z3.is_app(c): return
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT: return walk(c.arg(0), not sign)
        if k == z3.Z3_OP_AND and sign or k == z3.Z3_OP_OR and not sign:
            for x in c.children(): walk(x, sign)
        elif k == z3.Z3_OP_UNINTERPRETED and c.num_args() == 1 and c.arg(0).eq(t) and c.decl().name() in eng.str_auto:
            pos.append((c.decl().name(), sign))
    for c in eng.pc:
        if z3.is_expr(c): walk(c, True)
    out, seen = [], set()
    for n, sg in pos:
        if (n, sg) not in seen:
            seen.add((n, sg))
            out.append((eng.auto(n), sg))
    return Ctx(out), tuple(sorted(seen))


def extract(eng, v, mk, pyf, what):
    """SStr of the segment of v marked by the automaton mk(); None if it is
    not a total, unambiguous regular extraction on this path"""
    t = v.t
    b, outer = base(eng, t)
    try:
        ctx, key = context(eng, b)
        if not key: return None
        ck = ("ext", b.get_id(), key, what, t.get_id())
        if ck in eng.cache:
            r = eng.cache[ck][0]
            return SStr(eng.app(r, (b,), AStr)) if r else None
        m = mk()
        pf = pyf
        if outer is not None:
            m = Composite(outer, m)
            of = eng.exts[t.decl().name()][1]
            pf = lambda s: pyf(of(s))
        r = None
        if total(m, ctx) and unambiguous(m, ctx):
            for n, (m2, _) in eng.exts.items():
                if total(m2, ctx) and equal(m, m2, ctx): r = n; break
            if r is None:
                r = f"ext!{len(eng.exts)}"
                eng.exts[r] = (m, pf)
                f = eng.fn(r, AStr, AStr)
                eng.str_preds[r] = (f, pf)
        eng.cache[ck] = (r, b, t)
    except (NotRegular, lang.Unsupported, RecursionError):
        return None
    return SStr(eng.app(r, (b,), AStr)) if r else None


def pull(eng, name, s, pred):
    """predicate `name` of an extracted part as a predicate of the whole"""
    b, m = base(eng, s.t)
    if m is None or name not in eng.str_auto: return None
    pn = f"{s.t.decl().name()}|{name}"
    pf = eng.exts[s.t.decl().name()][1]
    eng.str_auto[pn] = lambda: Composite(m, eng.auto(name))
    f = eng.fn(pn, AStr, B)
    def p(x):
        try: y = pf(x)
        except Exception: return False
        return pred(y)
    eng.str_preds[pn] = (f, p)
    return f(b)


def int_range(eng, s):
    """bounds of int(part) on this path, from the finitely many texts it can be"""
    b, m = base(eng, s.t)
    if m is None: return None
    ctx, key = context(eng, b)
    ck = ("rng", s.t.get_id(), key)
    if ck not in eng.cache:
        try:
            sg = segments(m, ctx)
            r = None if not sg else (min(int(x) for x in sg), max(int(x) for x in sg))
        except (ValueError, NotRegular, lang.Unsupported):
            r = None
        eng.cache[ck] = (r, s.t)
    return eng.cache[ck][0]
