"""Concrete values of a type descriptor: seeded random generation (swarm
style, with literals harvested from the real source) and decoding of solver
models."""
import ast, dataclasses, enum, inspect, random, sys
import z3
from .values import *
from .tds import *


def harvest(modules):
    """string and int literals of the source of the given modules"""
    strs, ints = set(), set()
    for m in modules:
        try:
            tree = ast.parse(open(inspect.getsourcefile(m)).read())
        except Exception:
            continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                docs.add(id(n.body[0].value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                if isinstance(n.value, str) and len(n.value) <= 60: strs.add(n.value)
                elif isinstance(n.value, int) and not isinstance(n.value, bool): ints.add(n.value)
    return sorted(strs), sorted(ints)


# distinct strings that careless comparisons take for the same
ALIKE = [("\u00e9", "e\u0301"), ("\ufb01", "fi"), ("\u00df", "ss"), ("a", "a "), ("a", " a"), ("A", "\uff21"), ("\u212b", "\u00c5"), ("1", "1.0"), ("1", "01"), ("a", "a\n"), ("a", "a\u200b"),
         ("en", "en-"), ("en_US", "en-US"), ("a", "\u0430"), ("1", "\u0661"), ("a/b", "a/b/"), ("\u0130", "i\u0307"), ("a\tb", "a b"), ("None", ""), ("True", "1")]


class Gen:
    def __init__(self, seed, strs=(), ints=(), maxlen=4, depth=4):
        self.r = random.Random(seed)
        self.strs = list(strs)
        self.ints = [i for i in ints if 0 <= i <= 64]
        self.big = sorted({i for i in ints if 64 < i <= 3000})
        self.sizes = [i for i in ints if 0 <= i <= 5000] + [200, 1500]
        self.maxlen, self.depth0 = maxlen, depth
        self.new_case()

    def new_case(self):
        r = self.r
        base = ["", "a", "b", "A", "x", "ab", "0", "1", "-1", "+3", "01", "a_b", "a-b", "en", "de", "EN", "é", " "]
        k = r.randint(1, 6)
        self.pool = [r.choice(base) for _ in range(k)]
        if r.random() < 0.15: self.pool += list(r.choice(ALIKE))
        if self.strs:
            self.pool += [r.choice(self.strs) for _ in range(r.randint(0, 5))]
        self.swarm = {}
        self.p_none = r.choice([0.0, 0.15, 0.5, 0.8])
        self.lmax = r.choice([1, 2, 3, self.maxlen, self.maxlen])
        self.budget = 400
        if self.ints and r.random() < 0.15:
            self.llen = max(0, r.choice(self.ints) + r.choice([-1, 0, 1]))
        elif self.big and r.random() < 0.02:
            self.llen = r.choice(self.big) + r.choice([-1, 0, 1])
        else: self.llen = None

    def size(self, xs, most=1200):
        """a number of items: one of xs, now and then around an integer of the source or a large one"""
        r = self.r
        if r.random() < 0.004: return r.choice([i for i in self.ints + self.big + [30, 130, 300, 1100] if i <= most] or [most]) + r.choice([0, 1])
        return r.choice(xs)

    def pick(self, xs, p=0.1):
        """one of xs, sometimes a literal of the source instead"""
        r = self.r
        if self.strs and r.random() < p:
            s = r.choice(self.strs)
            x = r.choice(xs)
            return r.choice([s, s, s + x, x + s]) if isinstance(x, str) else s
        return r.choice(xs)

    def str(self):
        r = self.r
        s = r.choice(self.pool)
        if r.random() < 0.08:
            s = s + r.choice(self.pool)
        if r.random() < 0.05:
            s = s.swapcase()
        if r.random() < 0.01:
            s = (s or "z") * 5001
            s = s[:max(0, r.choice(self.sizes) + r.choice([-1, 0, 1]))]
        return s

    def choice(self, key, seq):
        """swarm choice: few distinct values per case"""
        seq = list(seq)
        if key not in self.swarm:
            k = self.r.choice([1, 2, 2, 3, 4, len(seq)])
            self.swarm[key] = self.r.sample(seq, min(k, len(seq)))
        if self.r.random() < 0.03: return self.r.choice(seq)
        return self.r.choice(self.swarm[key])

    def gen(self, td, depth=None):
        r = self.r
        depth = self.depth0 if depth is None else depth
        self.budget -= 1
        if isinstance(td, TInt):
            lo, hi = (td.lo if td.lo is not None else -5), (td.hi if td.hi is not None else 20)
            if self.ints and r.random() < 0.4:
                v = r.choice(self.ints) + r.choice([-1, 0, 1])
                if (td.lo is None or v >= td.lo) and (td.hi is None or v <= td.hi): return v
            return r.randint(lo, max(lo, hi))
        if isinstance(td, TBool): return r.random() < 0.5
        if isinstance(td, TStr):
            if td.pool and r.random() < 0.7: return r.choice(list(td.pool))
            return self.str()
        if isinstance(td, TEnum): return self.choice(td.cls, td.cls)
        if isinstance(td, TOpt):
            if depth <= 0 or self.budget < 0 or r.random() < self.p_none: return None
            return self.gen(td.td, depth)
        if isinstance(td, TUnion): return self.gen(r.choice(td.tds), depth)
        if isinstance(td, TConst): return r.choice(td.values)
        if isinstance(td, TList):
            if depth <= 0 or self.budget < 0: n = td.min
            elif self.llen is not None and r.random() < 0.3: n = max(td.min, self.llen)
            else: n = r.randint(td.min, max(td.min, self.lmax))
            return [self.gen(td.td, depth - 1) for _ in range(n)]
        if isinstance(td, TObj):
            cs = td.concrete
            c = cs[0] if len(cs) == 1 else self.choice(("cls", td.cls), cs)
            if depth <= 0 or self.budget < 0:
                small = [x for x in cs if not any(isinstance(f[1], (TList,)) and f[1].min for f in fields_of(x).values())]
                if small and c not in small: c = r.choice(small)
            return self.obj(c, depth, td.overrides)
        if isinstance(td, TAbs):
            return td.gen(self)
        if isinstance(td, TOpaque): return r.choice(list(td.samples))
        if callable(td): return td(self)
        raise TypeError(td)

    def obj(self, c, depth, overrides={}):
        from aas_test_engines.reflect import StringFormattedValue
        fs = fields_of(c)
        if issubclass(c, StringFormattedValue):
            for _ in range(6):
                s = self.str()
                try: return c(s)
                except Exception: pass
            for s in list(SAMPLES.get(c.__name__, ())) + ["a", "1", "2020-01-01T00:00:00Z", "en", "P1D", "a/b"]:
                try: return c(s)
                except Exception: pass
            o = c.__new__(c); o.raw_value = "a"
            return o
        vals = {}
        for n, (owner, ftd) in fs.items():
            vals[n] = self.gen(overrides.get(n, ftd), depth - 1)
        return build(c, vals)


SAMPLES = {}


def build(c, vals):
    o = c.__new__(c)
    for n, v in vals.items():
        object.__setattr__(o, n, v)
    return o


# ---------------------------------------------------------------- decoding --
def pyint(s):
    try: int(s)
    except ValueError: return False
    return True


class Decoder:
    def __init__(self, eng, model, depth=5):
        self.eng, self.m, self.depth = eng, model, depth
        self.strmap, self.fresh = {}, 0

    def ev(self, t): return self.m.eval(t, model_completion=True)

    def string(self, t):
        if self.eng.strings != "abs":
            return self.ev(t).as_string()
        v = self.ev(t)
        k = str(v)
        if k in self.strmap: return self.strmap[k]
        for s, c in self.eng.lits.items():
            if str(self.ev(c)) == k:
                self.strmap[k] = s
                return s
        cands = []
        tab = getattr(self.eng, "str_table", None)
        if tab:
            atoms, vs = tab
            want = [z3.is_true(self.ev(f(v))) for _, _, f in atoms]
            fits = [s for vec, s in vs.items() if all(a == b or k[0] == "intval" and not pyint(s) for a, b, (k, _, _) in zip(vec, want, atoms))]
            cands = [s for s in fits if s not in self.strmap.values()]
            if cands:
                self.strmap[k] = cands[0]
                return cands[0]
        cands = []
        base = list(self.eng.lits)
        cands += [f"v{self.fresh}", f"v_{self.fresh}", str(self.fresh), "", "a b", "1x", "A", "-", "en", "en-us", "a", "ä", "http://a"]
        cands += [x + "x" for x in base] + ["x" + x for x in base] + [x.upper() for x in base] + [x.lower() for x in base]
        best, bs = None, -1
        used = set(self.strmap.values())
        for c in cands:
            if c in used or c in self.eng.lits: continue
            sc = 0
            for name, (f, pred) in self.eng.str_preds.items():
                if f.range() != z3.BoolSort(): continue
                try:
                    want = z3.is_true(self.ev(f(v)))
                    if bool(pred(c)) == want: sc += 1
                except Exception: pass
            if sc > bs: best, bs = c, sc
        self.fresh += 1
        if best is None: best = f"w{self.fresh}"
        self.strmap[k] = best
        return best

    def dec(self, td, name, args=(), depth=None):
        e = self.eng
        depth = self.depth if depth is None else depth
        if isinstance(td, TInt): return self.ev(e.app(name, args, I)).as_long()
        if isinstance(td, TBool): return z3.is_true(self.ev(e.app(name, args, B)))
        if isinstance(td, TStr): return self.string(e.app(name, args, e.S))
        if isinstance(td, TEnum):
            ms = list(td.cls)
            return ms[self.ev(e.app(name, args, I)).as_long() % len(ms)]
        if isinstance(td, TOpt):
            if depth <= 0 or z3.is_true(self.ev(e.app(name + "?none", args, B))): return None
            return self.dec(td.td, name, args, depth)
        if isinstance(td, TUnion):
            i = self.ev(e.app(name + "?case", args, I)).as_long() % len(td.tds)
            return self.dec(td.tds[i], f"{name}?{i}", args, depth)
        if isinstance(td, TConst):
            if len(td.values) == 1: return td.values[0]
            return td.values[self.ev(e.app(name + "?const", args, I)).as_long() % len(td.values)]
        if isinstance(td, TList):
            n = self.ev(e.app(name + "?len", args, I)).as_long()
            n = max(td.min, min(n, 12 if depth > 2 else 2))
            if depth <= 0: n = td.min
            return [self.dec(td.td, name + "[]", args + (z3.IntVal(i),), depth - 1) for i in range(n)]
        if isinstance(td, TObj):
            t = self.ev(e.app(name, args, U)) if False else e.app(name, args, U)
            tg = self.ev(e.tag(t)).as_long()
            c = cls_of_tag(tg)
            if c not in td.concrete: c = td.concrete[0]
            vals = {n: self.dec(td.overrides.get(n, ftd), f"{o.__name__}.{n}", (t,), depth - 1) for n, (o, ftd) in fields_of(c).items()}
            return build(c, vals)
        raise TypeError(td)
