"""Regular languages: exact automata for regular expressions, int() texts,
lengths, literals and character-class predicates, and the set of truth
assignments of such predicates that some string realises."""
import re, sys, time
try:
    from re import _parser as sp, _constants as sc, _compiler as scomp
except ImportError:                              # pragma: no cover
    import sre_parse as sp, sre_constants as sc, sre_compile as scomp

MAXCP = 0x110000


class Unsupported(Exception):
    pass


# ------------------------------------------------------------ code point sets
def norm(iv):
    out = []
    for a, b in sorted(iv):
        if a > b: continue
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(out[-1][1], b))
        else: out.append((a, b))
    return tuple(out)


def compl(iv):
    out, p = [], 0
    for a, b in norm(iv):
        if p < a: out.append((p, a - 1))
        p = b + 1
    if p < MAXCP: out.append((p, MAXCP - 1))
    return tuple(out)


ALL = ((0, MAXCP - 1),)
_enum_cache = {}


def by_enumeration(key, pred):
    """exact set of the code points satisfying pred"""
    if key not in _enum_cache:
        out, st = [], None
        for c in range(MAXCP):
            if pred(chr(c)):
                if st is None: st = c
            elif st is not None:
                out.append((st, c - 1)); st = None
        if st is not None: out.append((st, MAXCP - 1))
        _enum_cache[key] = tuple(out)
    return _enum_cache[key]


def _everything():
    if not _enum_cache.get("all"): _enum_cache["all"] = "".join(map(chr, range(MAXCP)))
    return _enum_cache["all"]


def by_pattern(key, pattern, flags=0):
    """exact set of the code points a one-character pattern matches"""
    if key not in _enum_cache:
        out = []
        for m in re.finditer(f"(?:{pattern})+", _everything(), flags): out.append((m.start(), m.end() - 1))
        _enum_cache[key] = tuple(out)
    return _enum_cache[key]


def has(iv, c):
    lo, hi = 0, len(iv) - 1
    while lo <= hi:
        m = (lo + hi) // 2
        if c < iv[m][0]: hi = m - 1
        elif c > iv[m][1]: lo = m + 1
        else: return True
    return False


# ----------------------------------------------------------------------- NFA
class NFA:
    """states with char edges (intervals, target) and epsilon edges
    (condition, target); conditions: None, 'bos', 'eos', 'eol' """
    def __init__(self):
        self.ch, self.ep = [], []

    def new(self):
        self.ch.append([]); self.ep.append([])
        return len(self.ch) - 1

    def char(self, a, iv, b): self.ch[a].append((iv, b))
    def eps(self, a, b, cond=None): self.ep[a].append((cond, b))


def single(node, flags):
    """code points of a one-character node, or None"""
    op, av = node
    simple = not (flags & re.IGNORECASE)
    if op is sc.LITERAL and simple: return ((av, av),)
    if op is sc.NOT_LITERAL and simple: return compl(((av, av),))
    if op is sc.ANY:
        return ALL if flags & re.DOTALL else compl(((10, 10),))
    if op is sc.IN and simple and all(o in (sc.LITERAL, sc.RANGE, sc.NEGATE) for o, _ in av):
        iv, neg = [], False
        for o, v in av:
            if o is sc.NEGATE: neg = True
            elif o is sc.LITERAL: iv.append((v, v))
            else: iv.append(v)
        return compl(iv) if neg else norm(iv)
    if flags & re.ASCII and flags & re.IGNORECASE and (op in (sc.LITERAL, sc.NOT_LITERAL) or op is sc.IN and all(o in (sc.LITERAL, sc.RANGE, sc.NEGATE) for o, _ in av)):
        items = [(sc.LITERAL, av)] if op is not sc.IN else av
        iv, neg = [], op is sc.NOT_LITERAL
        for o, v in items:
            if o is sc.NEGATE: neg = True; continue
            a, b = (v, v) if o is sc.LITERAL else v
            iv.append((a, b))
            for lo, hi, d in ((65, 90, 32), (97, 122, -32)):
                x, y = max(a, lo), min(b, hi)
                if x <= y: iv.append((x + d, y + d))
        return compl(iv) if neg else norm(iv)
    if op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN):
        key = ("node", repr(node), int(flags) & int(re.IGNORECASE | re.ASCII | re.LOCALE))
        if key not in _enum_cache:
            st = sp.State(); st.flags = int(flags) & ~int(re.DEBUG); st.str = ""
            runs = sp.SubPattern(st, [(sc.MAX_REPEAT, (1, sc.MAXREPEAT, sp.SubPattern(st, [node])))])
            p = scomp.compile(runs, int(flags) | (0 if flags & re.ASCII else int(re.UNICODE)))
            _enum_cache[key] = tuple((m.start(), m.end() - 1) for m in p.finditer(_everything()))
        return _enum_cache[key]
    return None


def build(nfa, seq, a, flags, groups=None):
    """append the nodes of seq after state a; returns the end state"""
    for node in seq:
        op, av = node
        iv = single(node, flags)
        if iv is not None:
            b = nfa.new(); nfa.char(a, iv, b); a = b
        elif op is sc.BRANCH:
            end = nfa.new()
            for alt in av[1]:
                s = nfa.new(); nfa.eps(a, s)
                nfa.eps(build(nfa, alt, s, flags, groups), end)
            a = end
        elif op is sc.SUBPATTERN:
            g, add, rem, sub = av
            f = (flags | add) & ~rem
            if groups is not None and g in groups:
                s = nfa.new(); nfa.char(a, (groups[g][0],), s); a = s
                a = build(nfa, sub, a, f, groups)
                s = nfa.new(); nfa.char(a, (groups[g][1],), s); a = s
            else: a = build(nfa, sub, a, f, groups)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 2000 or (hi is not sc.MAXREPEAT and hi > 2000): raise Unsupported("large repeat")
            for _ in range(lo): a = build(nfa, sub, a, flags, groups)
            if hi is sc.MAXREPEAT:
                s = nfa.new(); nfa.eps(a, s)
                nfa.eps(build(nfa, sub, s, flags, groups), s)
                e = nfa.new(); nfa.eps(s, e); a = e
            else:
                end = nfa.new(); nfa.eps(a, end)
                for _ in range(hi - lo):
                    s = nfa.new(); nfa.eps(a, s)
                    a = build(nfa, sub, s, flags, groups)
                    nfa.eps(a, end)
                a = end
        elif op is sc.AT:
            b = nfa.new()
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                if av is sc.AT_BEGINNING and flags & re.MULTILINE: raise Unsupported("multiline")
                nfa.eps(a, b, "bos")
            elif av is sc.AT_END:
                if flags & re.MULTILINE: raise Unsupported("multiline")
                nfa.eps(a, b, "eol")
            elif av is sc.AT_END_STRING: nfa.eps(a, b, "eos")
            else: raise Unsupported(str(av))
            a = b
        else:
            raise Unsupported(str(op))
    return a


class Auto:
    """deterministic view: init, step(state, cp), accept(state), cuts"""
    def cuts(self): return ()


class ReAuto(Auto):
    def __init__(self, pattern, how="fullmatch", flags=0, groups=None):
        if isinstance(pattern, re.Pattern): pattern, flags = pattern.pattern, pattern.flags
        tree = sp.parse(pattern, int(flags))
        flags = re.RegexFlag(tree.state.flags)
        n = NFA()
        s0 = n.new()
        if how == "search":
            n.char(s0, ALL, s0)
        s = n.new(); n.eps(s0, s)
        e = build(n, tree, s, flags, groups)
        if how in ("match", "search"):
            f = n.new(); n.eps(e, f); n.char(f, ALL, f); e = f
        self.n, self.final = n, e
        self._memo, self._acc = {}, {}
        self.init = self.close({(s0, 0)}, True)

    # modes: 0 normal, 1 "at end or before a final newline", 2 "at end"
    def close(self, st, bos):
        todo, seen = list(st), set(st)
        while todo:
            q, m = todo.pop()
            for cond, t in self.n.ep[q]:
                if cond == "bos" and not bos: continue
                m2 = max(m, 1) if cond == "eol" else 2 if cond == "eos" else m
                if (t, m2) not in seen:
                    seen.add((t, m2)); todo.append((t, m2))
        return frozenset(seen)

    def step(self, st, c):
        k = (st, c)
        if k not in self._memo:
            out = set()
            for q, m in st:
                if m == 2 or (m == 1 and c != 10): continue
                for iv, t in self.n.ch[q]:
                    if has(iv, c): out.add((t, 2 if m == 1 else 0))
            self._memo[k] = self.close(out, False)
        return self._memo[k]

    def accept(self, st):
        return any(q == self.final for q, m in st)

    def cuts(self):
        for es in self.n.ch:
            for iv, _ in es:
                for a, b in iv: yield a; yield b + 1
        yield 10; yield 11


class LitAuto(Auto):
    def __init__(self, s): self.s = s; self.init = 0
    def step(self, st, c): return st + 1 if st >= 0 and st < len(self.s) and ord(self.s[st]) == c else -1
    def accept(self, st): return st == len(self.s)
    def cuts(self):
        for ch in self.s: yield ord(ch); yield ord(ch) + 1


class AffixAuto(Auto):
    """startswith / endswith / contains a literal"""
    def __new__(cls, kind, s):
        e = re.escape(s)
        return ReAuto({"startswith": f"(?s:{e}.*)", "endswith": f"(?s:.*{e})", "contains": f"(?s:.*{e}.*)"}[kind])


class AllCharsAuto(Auto):
    """non-empty and every character satisfies a character predicate (str.isdigit, ...)"""
    def __init__(self, key, pred, empty=False):
        self.iv, self.empty, self.init = by_enumeration(key, pred), empty, 0
    def step(self, st, c): return 1 if st in (0, 1) and has(self.iv, c) else -1
    def accept(self, st): return st == 1 or (st == 0 and self.empty)
    def cuts(self):
        for a, b in self.iv: yield a; yield b + 1


class LenAuto(Auto):
    def __init__(self, op, n): self.op, self.n, self.init = op, n, 0
    def step(self, st, c): return min(st + 1, self.n + 1)
    def accept(self, st): return {"<=": st <= self.n, ">=": st >= self.n, "==": st == self.n}[self.op]


class ModLenAuto(Auto):
    """length modulo m equals r"""
    def __init__(self, m, r): self.m, self.r, self.init = m, r, 0
    def step(self, st, c): return (st + 1) % self.m
    def accept(self, st): return st == self.r


class SomeCharAuto(Auto):
    """some character satisfies a character predicate"""
    def __init__(self, key, pred): self.iv, self.init = by_enumeration(key, pred), 0
    def step(self, st, c): return 1 if st == 1 or has(self.iv, c) else 0
    def accept(self, st): return st == 1
    def cuts(self):
        for a, b in self.iv: yield a; yield b + 1


WS = lambda: by_pattern("isspace", r"\s")  # the same characters as str.isspace
_digits = []


def digits():
    if not _digits:
        import unicodedata
        for d in range(10):
            cs = [c for a, b in by_pattern("decimal", r"\d") for c in range(a, b + 1) if unicodedata.decimal(chr(c), None) == d]
            _digits.append(tuple((c, c) for c in cs))
    return _digits


class IntAuto(Auto):
    """texts int() accepts whose value satisfies op c (op None: all of them)"""
    def __init__(self, op=None, c=0):
        self.op, self.c = op, c
        self.D = str(abs(c))
        self.init = ("ws", 0, 0, 0)
        self.sets = [("ws", WS())] + [(d, iv) for d, iv in enumerate(digits())]

    def kind(self, c):
        if c == ord("_"): return "_"
        if c in (43, 45): return chr(c)
        for k, iv in self.sets:
            if has(iv, c): return k
        return None

    def step(self, st, c):
        ph, sg, ln, cm = st
        k = self.kind(c)
        dead = ("dead", 0, 0, 0)
        if ph == "dead" or k is None: return dead
        if ph == "ws":
            if k == "ws": return st
            if k in ("+", "-"): return ("sign", 1 if k == "-" else 0, 0, 0)
        if ph in ("ws", "sign", "dig", "us") and isinstance(k, int):
            # skip leading zeros; compare digit by digit with D
            if ln == 0 and k == 0: return ("dig", sg, 0, 0)
            if self.op is None: return ("dig", 0, 0, 0)
            if ln >= len(self.D): return ("dig", sg, len(self.D) + 1, 0)
            if cm == 0:
                d = int(self.D[ln])
                cm = -1 if k < d else 1 if k > d else 0
            return ("dig", sg, ln + 1, cm)
        if ph == "dig" and k == "_": return ("us", sg, ln, cm)
        if ph == "dig" and k == "ws": return ("end", sg, ln, cm)
        if ph == "end" and k == "ws": return st
        return dead

    def accept(self, st):
        ph, sg, ln, cm = st
        if ph not in ("dig", "end"): return False
        if self.op is None: return True
        L = 0 if self.D == "0" else len(self.D)
        mag = -1 if ln < L else 1 if ln > L else cm          # |v| vs |c|
        if self.D == "0": mag = 0 if ln == 0 else 1
        zero = ln == 0
        neg = sg == 1 and not zero
        if neg: s = (-mag if self.c < 0 else -1)
        else: s = (1 if self.c < 0 else mag)
        return {">=": s >= 0, "<=": s <= 0, "==": s == 0}[self.op]

    def cuts(self):
        for k, iv in self.sets:
            for a, b in iv: yield a; yield b + 1
        for x in (43, 44, 45, 46, 95, 96): yield x


def float_auto():
    """texts float() accepts, non-ASCII digits and white space included"""
    dg = by_pattern("decimal", r"\d")
    ws = WS()
    def cls(iv): return "[" + "".join(f"\\U{a:08x}-\\U{b:08x}" for a, b in iv) + "]"
    d, w = cls(dg), cls(ws)
    ds = f"{d}(?:_?{d})*"
    return ReAuto(f"{w}*[-+]?(?:(?:{ds}(?:\\.(?:{ds})?)?|\\.{ds})(?:[eE][-+]?{ds})?|[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN]){w}*")


def classes(autos):
    """representatives of the coarsest partition all automata respect,
    printable ones first"""
    cuts = {0, MAXCP}
    for a in autos: cuts.update(a.cuts())
    cuts = sorted(x for x in cuts if 0 <= x <= MAXCP)
    reps = []
    for a, b in zip(cuts, cuts[1:]):
        r = a
        if a <= 0xdfff and b > 0xd800:               # surrogates cannot be encoded: prefer others
            if a < 0xd800: r = a
            elif b > 0xe000: r = 0xe000
        reps.append(r)
    return reps


def merge_classes(autos, reps, limit=None):
    return reps


def vectors(autos, limit=400000, seconds=60):
    """{truth vector: shortest string} over all strings"""
    t0 = time.time()
    st0 = tuple(a.init for a in autos)
    seen = {st0: None}
    out = {}
    todo = [st0]
    def acc(st): return tuple(bool(a.accept(s)) for a, s in zip(autos, st))
    out[acc(st0)] = st0
    from .extract import small_reps
    reps = small_reps(autos)
    reps.sort(key=lambda r: (not (32 < r < 127), r))
    while todo:
        nxt = []
        for st in todo:
            for r in reps:
                t = tuple(a.step(s, r) for a, s in zip(autos, st))
                if t not in seen:
                    seen[t] = (st, r)
                    nxt.append(t)
                    v = acc(t)
                    if v not in out: out[v] = t
            if len(seen) > limit or time.time() - t0 > seconds: raise Unsupported("too many states")
        todo = nxt
    res = {}
    for v, st in out.items():
        cs = []
        while seen[st] is not None:
            st, r = seen[st]
            cs.append(chr(r))
        res[v] = "".join(reversed(cs))
    vectors.states = len(seen)
    return res


def difference(a, b):
    """shortest string accepted by exactly one of two automata, or None"""
    v = vectors([a, b])
    ws = [s for (x, y), s in v.items() if x != y]
    return min(ws, key=len) if ws else None
