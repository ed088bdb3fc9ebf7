"""pyvc: symbolic evaluator / verification-condition generator for Python.

Runs the AST of the *real* functions (taken from the modules imported from
/repo on every run) on symbolic inputs.  Branches fork (exploration by
re-execution), loops over symbolic sequences are summarised exactly for a
generic iteration index (quantified facts + inductively verified recurrences),
calls are inlined or replaced by a separately verified contract.
"""
import time
import ast, functools, builtins, dataclasses, enum, importlib, inspect, math, re, sys, types
import z3
from .values import *
from . import tds
from .tds import *


class Undecided(Exception):
    """construct outside the engine's reach / solver gave up"""


class CarriedRead(Undecided):
    """a list that the surrounding loop accumulates is read inside the loop"""
    def __init__(self, msg, segs):
        Undecided.__init__(self, msg)
        self.locs = [s.loc for s in segs if isinstance(s, CarriedSeg)]


class PathInfeasible(Exception):
    pass


class PoisonRead(Exception):
    def __init__(self, loc): self.loc = loc


class PyRaise(Exception):
    """a Python exception raised by the interpreted program"""
    def __init__(self, val, where=None): self.val, self.where = val, where


class _Ret(Exception):
    def __init__(self, v): self.v = v


class _Brk(Exception):
    pass


class _Cnt(Exception):
    pass


class _Done(Exception):
    """while-condition became false"""


class SRec(SV):
    """immutable snapshot of an object allocated inside a summarised loop"""
    def __init__(self, cls, fields): self.cls, self.fields = cls, fields


class SSeqV(SV):
    """immutable snapshot of a list allocated inside a summarised loop"""
    def __init__(self, segs): self.segs = segs


class _QRet(Exception):
    def __init__(self, v): self.v = v


class Outcome:
    def __init__(self, kind, val, pc, heap): self.kind, self.val, self.pc, self.heap = kind, val, pc, heap


def zand(xs):
    xs = [x for x in xs if x is not True and not (z3.is_expr(x) and z3.is_true(x))]
    if any(x is False or (z3.is_expr(x) and z3.is_false(x)) for x in xs):
        return False
    if not xs: return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def zor(xs):
    xs = [x for x in xs if x is not False and not (z3.is_expr(x) and z3.is_false(x))]
    if any(x is True or (z3.is_expr(x) and z3.is_true(x)) for x in xs):
        return True
    if not xs: return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def znot(x):
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.arg(0)
    if z3.is_true(x): return False
    if z3.is_false(x): return True
    return z3.Not(x)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


_quant_cache = {}


def symbols(e):
    """names of the uninterpreted functions and constants of e"""
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            todo.extend(x.children())
    return out


def qf_parts(c):
    """quantifier-free conjuncts of c"""
    if not has_quant(c): return [c]
    if z3.is_and(c): return [x for a in c.children() for x in qf_parts(a)]
    return []


def has_quant(e):
    if isinstance(e, bool): return False
    i = e.get_id()
    c = _quant_cache.get(i)
    if c is not None: return c[1]   # the expression is kept, so its id stays its own
    r = _has_quant(e)
    _quant_cache[i] = (e, r)
    return r


def _has_quant(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x): return True
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        todo.extend(x.children())
    return False


class Decision:
    __slots__ = ("choice", "alts")
    def __init__(self, choice, alts): self.choice, self.alts = choice, alts


_ast_cache = {}


def module_ast(filename):
    if filename not in _ast_cache:
        with open(filename) as f:
            src = f.read()
        _ast_cache[filename] = ast.parse(src)
    return _ast_cache[filename]


_fn_cache = {}


def fn_node(fn):
    """AST node of a python function object"""
    code = fn.__code__
    if code in _fn_cache: return _fn_cache[code]
    try:
        tree = module_ast(code.co_filename)
    except OSError:
        raise Undecided(f"no source for {f.__qualname__}")
    best = None
    if code.co_name == "<lambda>":
        pos = [p for p in code.co_positions() if p[0] is not None and p[2] is not None]
        cand = []
        for n in ast.walk(tree):
            if isinstance(n, ast.Lambda):
                b = n.body
                inside = all((b.lineno, b.col_offset) <= (p[0], p[2]) and (p[1], p[3]) <= (b.end_lineno, b.end_col_offset)
                             for p in pos if p[0] != code.co_firstlineno or p[3] != 0)
                if n.lineno == code.co_firstlineno and inside:
                    cand.append(n)
        cand.sort(key=lambda n: (n.end_lineno - n.lineno, n.end_col_offset - n.col_offset))
        if cand: best = cand[0]
    else:
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == code.co_name:
                first = min([n.lineno] + [d.lineno for d in n.decorator_list])
                if first == code.co_firstlineno:
                    best = n
                    break
    if best is None:
        raise Undecided(f"no source for {fn}")
    _fn_cache[code] = best
    return best


def is_generator(node):
    if isinstance(node, ast.Lambda): return False
    known = getattr(node, "_pyvc_generator", None)
    if known is not None: return known
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)): return True
            if walk(c): return True
        return False
    node._pyvc_generator = walk(node)
    return node._pyvc_generator


class Carried:
    def __init__(self, kind): self.kind = kind


class Merged(SMap):
    """one symbolic map laid over another; only its entries, not their order"""
    def __init__(self, eng, a, b):
        self.has = lambda k: zor([a.has(k), b.has(k)])
        self.get = lambda k: b.get(k) if eng.branch(b.has(k)) else a.get(k)

    @property
    def n(self): raise Undecided("iteration over merged dicts")

    @property
    def key(self): raise Undecided("iteration over merged dicts")


class Engine:
    MAXPATHS = 4000
    UNROLL = 200

    def __init__(self, strings="abs", feas_timeout=400):
        self.strings = strings
        self.S = AStr if strings == "abs" else z3.StringSort()
        self.models = {}          # python callable -> handler(eng, args, kwargs)
        self.meth_models = {}     # (class, name) -> handler
        self.sums = []
        self.lrecs = []
        self.global_over = {}     # (module name, var) -> value
        self.lits = {}            # literal -> z3 const (abs mode)
        self.feas_timeout = feas_timeout
        self.idx = []
        self.heap, self.pc, self.counter = {}, [], 0
        self.trace, self.pos, self.key = [], 0, ()
        self.cache = {}
        self.obligations = []
        self.fn_seen = set()      # functions whose real body was interpreted
        self.lib_used = set()     # library models relied on
        self.depth = 0
        self.ax = []              # global axioms (closed)
        self.funcs = {}
        self.bounded = None       # None: unbounded; int B: list lengths 0..B
        self.split_seps = set()
        self.exts = {}            # extraction functions: name -> (automaton, python function)
        self._autos = {}
        self.str_auto = {}        # name -> () -> automaton deciding the predicate
        self.str_preds = {}
        self.fm_defs = []
        self.fmlens = []       # name -> (fn, python predicate) for literal evaluation
        self.steps = 0
        self.modstack = []
        self.deadline = None
        from . import lib
        lib.install(self)

    # ---------------------------------------------------------------- misc --
    def fn(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.funcs:
            self.funcs[k] = z3.Function(name, *sorts) if len(sorts) > 1 else None
        return self.funcs[k]

    def app(self, name, args, sort):
        """uninterpreted function application F_name(args):sort"""
        if not args:
            return z3.Const(name, sort)
        f = self.fn(name, *[a.sort() for a in args], sort)
        return f(*args)

    def fresh(self, name, sort):
        self.counter += 1
        return self.app(f"{name}!{self.counter}", tuple(self.idx), sort)

    def newid(self):
        self.counter += 1
        return self.counter

    def alloc(self, rec):
        i = self.newid()
        self.heap[i] = rec
        return Ref(i)

    def new_list(self, values):
        return self.alloc(Lst([Unit(v) for v in values]))

    def new_obj(self, cls, fields, sym=None):
        return self.alloc(Obj(cls, dict(fields), sym))

    def snapshot(self):
        return dict(self.heap), list(self.pc), self.counter

    # ------------------------------------------------------------- strings --
    def lit(self, s):
        if self.strings != "abs":
            return z3.StringVal(s)
        if s not in self.lits:
            self.lits[s] = z3.Const(f"lit!{len(self.lits)}!{s[:20]}", AStr)
        return self.lits[s]

    def st(self, v):
        """z3 term of a string value"""
        if isinstance(v, str): return self.lit(v)
        if isinstance(v, SStr): return v.t
        raise Undecided(f"not a string: {v!r}")

    def str_ops_axioms(self):
        ax = []
        if self.strings == "abs":
            cs = list(self.lits.values())
            if len(cs) > 1: ax.append(z3.Distinct(*cs))
            ln = self.funcs.get(("strlen", "AStr", "Int"))
            if ln is not None:
                x = z3.Const("x!s", AStr)
                ax.append(z3.ForAll([x], ln(x) >= 0, patterns=[ln(x)]))
                for s, c in self.lits.items():
                    ax.append(ln(c) == len(s))
                e = self.lit("")
                ax.append(z3.ForAll([x], z3.Implies(ln(x) == 0, x == e), patterns=[ln(x)]))
                ax.append(ln(e) == 0)
            for name, (f, pred) in self.str_preds.items():
                for s, c in list(self.lits.items()):
                    try:
                        r = pred(s)
                    except Exception:
                        continue
                    if isinstance(r, bool):
                        ax.append(f(c) if r else z3.Not(f(c)))
                    elif isinstance(r, str):
                        if r in self.lits: ax.append(f(c) == self.lits[r])
                    elif isinstance(r, int):
                        ax.append(f(c) == r)
        return ax

    def auto(self, name):
        if name not in self._autos: self._autos[name] = self.str_auto[name]()
        return self._autos[name]

    def str_pred(self, name, s, pred):
        """uninterpreted predicate/function on strings with concrete meaning `pred`"""
        if isinstance(s, str):
            return pred(s)
        if self.exts and self.strings == "abs":
            from . import extract
            r = extract.pull(self, name, s, pred)
            if r is not None: return r
        f = self.fn(name, AStr if self.strings == "abs" else z3.StringSort(), B)
        self.str_preds[name] = (f, pred)
        return f(self.st(s))

    def strlen(self, s):
        if isinstance(s, str): return len(s)
        if self.strings == "abs":
            t = self.app("strlen", (self.st(s),), I)
            return t
        return z3.Length(s.t)

    # --------------------------------------------------------- exploration --
    def path_key(self):
        return (self.key, tuple(d.choice for d in self.trace[:self.pos]), self.counter)

    def assume(self, c):
        if c is True or (z3.is_expr(c) and z3.is_true(c)): return
        if c is False or (z3.is_expr(c) and z3.is_false(c)): raise PathInfeasible()
        self.pc.append(c)

    def feasible(self, extra):
        ck = ("feas",) + tuple(c.get_id() for c in self.pc) + tuple(e.get_id() for e in extra)
        if ck in self.cache: return self.cache[ck][0]
        s = z3.Solver()
        s.set("timeout", self.feas_timeout)
        if self.strings == "abs" and self.lits:
            for a in self.str_ops_axioms():
                s.add(a)
        for c in self.pc: s.add(*qf_parts(c))
        for c in extra: s.add(*qf_parts(c))
        r = s.check() != z3.unsat
        self.cache[ck] = (r, list(self.pc), list(extra))
        return r

    def decide(self, conds):
        """conds: list of z3 conds/bools; picks one feasible index (forking)."""
        if self.pos < len(self.trace):
            c = self.trace[self.pos].choice
            self.pos += 1
            if z3.is_expr(conds[c]): self.pc.append(conds[c])
            return c
        feas = []
        for i, c in enumerate(conds):
            if c is False: continue
            if c is True or self.feasible([c]): feas.append(i)
        if not feas: raise PathInfeasible()
        self.trace.append(Decision(feas[0], feas[1:]))
        self.pos += 1
        c = conds[feas[0]]
        if z3.is_expr(c): self.pc.append(c)
        return feas[0]

    def branch(self, cond):
        if isinstance(cond, bool): return cond
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        i = cond.get_id()
        n = znot(cond)
        ni = n.get_id()
        for p in self.pc:
            pi = p.get_id()
            if pi == i: return True
            if pi == ni: return False
        return self.decide([cond, n]) == 0

    def explore(self, thunk, push_idx=None, keytag=None):
        """run thunk on all paths from the current state; returns outcomes and
        leaves the state as it was (except the fresh counter)."""
        ck = None
        if keytag is not None:
            ck = ("ex", keytag, self.path_key())
            if ck in self.cache:
                outs, cnt = self.cache[ck]
                self.counter = cnt
                return outs
        heap0, pc0, cnt0 = dict(self.heap), list(self.pc), self.counter
        sv = (self.trace, self.pos, self.key, list(self.idx), self.depth)
        ms0 = list(self.modstack)
        outs, trace, cmax, npaths = [], [], cnt0, 0
        basekey = (self.key, tuple(d.choice for d in self.trace[:self.pos]), cnt0, keytag)
        try:
            while True:
                self.heap, self.pc, self.counter = dict(heap0), list(pc0), cnt0
                self.trace, self.pos, self.key, self.depth = trace, 0, basekey, sv[4]
                self.modstack = list(ms0)
                self.idx = sv[3] + ([push_idx] if push_idx is not None else [])
                npaths += 1
                if npaths > self.MAXPATHS: raise Undecided("too many paths")
                if self.deadline and time.time() > self.deadline: raise Undecided("time budget for this contract used up")
                try:
                    v = thunk()
                    outs.append(Outcome("ok", v, self.pc[len(pc0):], self.heap))
                except PathInfeasible:
                    pass
                except PyRaise as e:
                    outs.append(Outcome("raise", e.val, self.pc[len(pc0):], self.heap))
                except _Ret as e:
                    outs.append(Outcome("ret", e.v, self.pc[len(pc0):], self.heap))
                except _Brk:
                    outs.append(Outcome("brk", None, self.pc[len(pc0):], self.heap))
                except _Done:
                    outs.append(Outcome("done", None, self.pc[len(pc0):], self.heap))
                except _QRet as e:
                    outs.append(Outcome("qret", e.v, self.pc[len(pc0):], self.heap))
                except _Cnt:
                    outs.append(Outcome("ok", None, self.pc[len(pc0):], self.heap))
                cmax = max(cmax, self.counter)
                while trace and not trace[-1].alts: trace.pop()
                if not trace: break
                trace[-1].choice = trace[-1].alts.pop(0)
        finally:
            self.trace, self.pos, self.key, self.idx, self.depth = sv
            self.modstack = ms0
            self.heap, self.pc, self.counter = heap0, pc0, max(cmax, self.counter)
        if ck is not None: self.cache[ck] = (outs, self.counter)
        return outs

    def merge_bool(self, thunk, tag=None):
        """evaluate a pure boolean computation to one formula"""
        outs = self.explore(lambda: self.truth_val(thunk()), keytag=tag)
        cases = []
        for o in outs:
            if o.kind != "ok": raise Undecided(f"boolean expression may {o.kind}")
            cases.append(zand(o.pc + [o.val]))
        return zor(cases)

    # ------------------------------------------------------------- solving --
    def prove(self, goal, facts=None, timeout=20000, want_model=False):
        """pc |- goal ?  returns 'valid' | 'sat' | 'unknown'"""
        from . import smt
        facts = list(self.pc if facts is None else facts)
        return smt.check_valid(self, facts, goal, timeout)

    # ---------------------------------------------------------- making values
    def mk(self, td, name, args=(), owner=None):
        if isinstance(td, TInt):
            t = self.app(name, args, I)
            if td.lo is not None: self.assume(t >= td.lo)
            if td.hi is not None: self.assume(t <= td.hi)
            return SInt(t)
        if isinstance(td, TBool): return SBool(self.app(name, args, B))
        if isinstance(td, TStr): return SStr(self.app(name, args, self.S))
        if isinstance(td, TEnum):
            t = self.app(name, args, I)
            self.assume(z3.And(t >= 0, t < len(list(td.cls))))
            return SEnum(td.cls, t)
        if isinstance(td, TOpt):
            n = self.app(name + "?none", args, B)
            v = self.mk(td.td, name, args)
            return SUnion([(n, None), (z3.Not(n), v)])
        if isinstance(td, TUnion):
            t = self.app(name + "?case", args, I)
            self.assume(z3.And(t >= 0, t < len(td.tds)))
            return SUnion([(t == i, self.mk(x, f"{name}?{i}", args)) for i, x in enumerate(td.tds)])
        if isinstance(td, TList):
            n = self.app(name + "?len", args, I)
            if self.bounded is not None:
                opts = list(range(td.min, self.bounded + 1))
                c = opts[self.decide([n == o for o in opts])]
                return SList(c, lambda i: self.mk(td.td, name + "[]", args + (zi(i),)))
            self.assume(n >= td.min)
            return SList(n, lambda i: self.mk(td.td, name + "[]", args + (zi(i),)))
        if isinstance(td, TConst):
            if len(td.values) == 1: return td.values[0]
            t = self.app(name + "?const", args, I)
            self.assume(z3.And(t >= 0, t < len(td.values)))
            return SUnion([(t == i, x) for i, x in enumerate(td.values)])
        if isinstance(td, TObj):
            t = self.app(name, args, U)
            self.assume_tag(t, td)
            return SObj(t, td)
        if isinstance(td, TAbs):
            return SObj(self.app(name, args, U), td)
        if isinstance(td, TOpaque):
            return Opaque(self.app(name, args, U))
        raise Undecided(f"mk {td}")

    def tag(self, t):
        return self.app("tag", (t,), I)

    def assume_tag(self, t, td):
        if len(td.concrete) >= 1:
            self.assume(zor([self.tag(t) == tag_of(c) for c in td.concrete]))

    # -------------------------------------------------------- union handling
    def resolve(self, v):
        """fork a union into one of its cases; poison check"""
        while isinstance(v, SUnion):
            i = self.decide_union(v)
            v = v.cases[i][1]
        if isinstance(v, Poison): raise PoisonRead(v.loc)
        return v

    def decide_union(self, v):
        ids = {p.get_id() for p in self.pc}
        live = []
        for i, (c, _) in enumerate(v.cases):
            if c is True: return i
            if c is False: continue
            if c.get_id() in ids: return i
            if znot(c).get_id() in ids if not isinstance(znot(c), bool) else False: continue
            live.append(i)
        if len(live) == 1 and len(v.cases) > 1:
            return live[0]
        conds = [v.cases[i][0] for i in live]
        return live[self.decide(conds)]

    def mk_union(self, cases):
        out = []
        for c, v in cases:
            if c is False or (z3.is_expr(c) and z3.is_false(c)): continue
            if isinstance(v, SUnion):
                for c2, v2 in v.cases: out.append((zand([c, c2]), v2))
            else:
                out.append((c, v))
        if len(out) == 1: return out[0][1]
        return SUnion(out)

    # ------------------------------------------------------------ truthiness
    def truth_val(self, v):
        """bool or z3 Bool"""
        if isinstance(v, SUnion):
            try:
                return zor([zand([c, self.truth_val(x)]) for c, x in v.cases])
            except Undecided:
                return self.truth_val(self.resolve(v))
        if isinstance(v, Poison): raise PoisonRead(v.loc)
        if isinstance(v, SBool): return v.t
        if isinstance(v, SInt): return v.t != 0
        if isinstance(v, SStr):
            return v.t != self.lit("")
        if isinstance(v, SEnum): return True
        if isinstance(v, SList):
            return v.n > 0 if not isinstance(v.n, int) else v.n > 0
        if isinstance(v, SMap): return v.n > 0
        if isinstance(v, (SFun, Bound, BMeth, Closure)): return True
        if isinstance(v, SObj):
            if isinstance(v.td, TAbs):
                h = v.td.methods.get("__bool__")
                if h: return self.truth_val(h(self, v, [], {}))
                if "__len__" in v.td.methods:
                    return self.truth_val(v.td.methods["__len__"](self, v, [], {}))
                return True
            for c in v.td.concrete:
                if hasattr(c, "__bool__") or hasattr(c, "__len__"):
                    raise Undecided(f"truth of {c}")
            return True
        if isinstance(v, SRec):
            if hasattr(v.cls, "__bool__") or hasattr(v.cls, "__len__"): raise Undecided("truth of rec")
            return True
        if isinstance(v, Ref):
            r = self.heap[v.id]
            if isinstance(r, Obj):
                if hasattr(r.cls, "__bool__"): return self.truth_val(self.call_method(v, "__bool__", [], {}))
                if hasattr(r.cls, "__len__"): return self.truth_val(self.call_method(v, "__len__", [], {}))
                return True
            if isinstance(r, Lst): return self.seq_some(r.segs)
            if isinstance(r, Set_):
                if r.elems: return True
                if r.preds: raise Undecided("truth of symbolic set")
                return False
            if isinstance(r, Dct):
                if r.puts: return self.puts_some(r)
                if r.base is not None: return self.truth_int(r.base.n)
                return False
        if isinstance(v, SSeqV): return self.seq_some(v.segs)
        if isinstance(v, SV): raise Undecided(f"truth of {v!r}")
        return bool(v)

    def puts_some(self, r):
        """a dict with puts has an entry"""
        from .loops import FoldPuts
        from .lib import _Del
        plain = [p for p in r.puts if isinstance(p, tuple)]
        if any(isinstance(p[0], _Del) for p in plain) or any(isinstance(p, CarriedSeg) for p in r.puts): raise Undecided("truth of an updated dict")
        if plain: return True
        out = [] if r.base is None else [self.truth_int(r.base.n)]
        for p in r.puts:
            j = self._qvar()
            out.append(z3.Exists([j], z3.And(j >= 0, j < zi(p.n), zb(zor([c for c, ps in p.cases(j) if ps])))))
        return zor(out)

    def truth_int(self, n):
        return n != 0 if isinstance(n, int) else n != 0

    def truth(self, v):
        return self.branch(self.truth_val(v))

    def to_bool_value(self, t):
        return t if isinstance(t, bool) else SBool(t)

    # -------------------------------------------------------------- lengths
    def seq_some(self, segs):
        """not empty; filtered parts by existence of a selected element, without counting them"""
        if not (any(isinstance(s, FM) for s in segs) and self.idx): return self.truth_int(self.seq_len(segs))
        out = []
        for s in segs:
            if isinstance(s, Unit): return True
            if isinstance(s, Span): out.append(zi(s.n) > 0)
            elif isinstance(s, FM):
                self.counter += 1
                j = z3.Int(f"some!{self.counter}")
                hit = []
                for c, ss in s.cases(j):
                    if any(isinstance(x, Unit) for x in ss): hit.append(zb(c))
                    elif all(isinstance(x, Span) for x in ss): hit += [z3.And(zb(c), zi(x.n) > 0) for x in ss]
                    else: return self.truth_int(self.seq_len(segs))
                out.append(z3.Exists([j], z3.And(j >= 0, j < zi(s.n), zb(zor(hit)))))
            else: raise CarriedRead("length of accumulating list", segs)
        return zor(out)

    def seq_len(self, segs):
        tot = 0
        for s in segs:
            if isinstance(s, Unit): tot = tot + 1
            elif isinstance(s, Span): tot = tot + s.n
            elif isinstance(s, FM):
                tot = tot + self.fm_len(s)
            else: raise CarriedRead("length of accumulating list", segs)
        return tot

    def fm_len(self, s): return self.fm_prefix(s)(zi(s.n))

    def fm_prefix(self, s, create=True):
        """number of elements contributed by the iterations before j, as a function of j"""
        # length function by prefix sums (uninterpreted with recurrence)
        self.counter += 1
        f = self.fn(f"fmlen!{self.counter}", *[I] * (len(self.idx) + 1), I)
        F = lambda x, ix=tuple(self.idx): f(*ix, x)
        j = z3.Int(f"j!{self.counter}")
        cs = s.cases(j)
        step = []
        for c, segs in cs:
            l = 0
            for x in segs:
                if isinstance(x, Unit): l = l + 1
                elif isinstance(x, Span): l = l + x.n
                else: raise Undecided("nested fm length")
            step.append(z3.Implies(zb(c), F(j + 1) == F(j) + l))
        n = zi(s.n)
        # a filtered list of provably the same shape has the same length
        canon = z3.Int("fm.j")
        tot = z3.IntVal(0)
        for c, segs in reversed(cs):
            l = 0
            for x in segs: l = l + (1 if isinstance(x, Unit) else x.n)
            tot = z3.If(zb(c), zi(l), tot)
        tot = z3.simplify(z3.substitute(tot, (j, canon)))
        for (n0, idx0, tot0, ax0, r0) in self.fmlens:
            if not (n0.eq(n) and idx0 == [str(x) for x in self.idx] and any(z3.is_expr(p) and p.eq(ax0) for p in self.pc)): continue
            if tot0.eq(tot): return r0
            if self.same_shape(tot0, tot, [canon >= 0, canon < n]): return r0
        for d in self.fm_defs:  # counts a contract defines
            r = d(self, n, tot, canon)
            if r is not None: return r
        if not create: return None
        self.assume(F(z3.IntVal(0)) == 0)
        self.assume(F(n) >= 0)
        ax = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), zand(step + [F(j + 1) >= F(j)])), patterns=[F(j + 1)])
        self.assume(ax)
        self.fmlens.append((n, [str(x) for x in self.idx], tot, ax, F))
        # emptiness characterisation (verified by the recurrence: all steps 0)
        units = []
        for c, segs in cs:
            if all(isinstance(x, Unit) for x in segs) and segs: units.append(zb(c))
        if all(all(isinstance(x, Unit) for x in segs) for c, segs in cs):
            self.assume((F(n) == 0) == z3.Not(z3.Exists([j], z3.And(j >= 0, j < n, zb(zor(units))))))
            if all(len(segs) <= 1 for c, segs in cs):
                self.assume((F(n) == n) == z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), zb(zor(units)))))
                self.assume(F(n) <= n)
        return F

    def same_shape(self, a, b, side):
        """a == b follows from the path condition"""
        mine = {d for d in symbols(a) | symbols(b) if "!" in d}
        qs = [p for p in self.pc if z3.is_expr(p) and has_quant(p)]
        rel, more = [], True
        while more:
            more = [p for p in qs if not any(p is q for q in rel) and symbols(p) & mine]
            rel += more
            for p in more: mine |= {d for d in symbols(p) if "!" in d}
        tries = [([], 500)]
        if rel: tries.append((rel, 1500))
        if len(rel) < len(qs): tries.append((qs, 1500))
        for extra, t in tries:
            for goal in ([a != b] if not extra else [z3.And(a > b), z3.And(a < b)]):
                sv = z3.Solver()
                sv.set("timeout", t)
                for p in self.pc:
                    if z3.is_expr(p) and not has_quant(p): sv.add(p)
                sv.add(*extra, *side, goal)
                if sv.check() != z3.unsat: break
            else: return True
        return False

    def length(self, v):
        v = self.resolve(v)
        if isinstance(v, SStr): return SInt(self.strlen(v))
        if isinstance(v, (SList, SMap)):
            return v.n if isinstance(v.n, int) else SInt(v.n)
        if isinstance(v, Ref):
            r = self.heap[v.id]
            if isinstance(r, Lst):
                n = self.seq_len(r.segs)
                return n if isinstance(n, int) else SInt(n)
            if isinstance(r, Set_) and not r.preds and len(r.elems) <= 1: return len(r.elems)
            if isinstance(r, Dct) and r.base is None and not r.puts: return 0
            if isinstance(r, Dct) and r.base is None and len(r.puts) == 1:
                from .loops import FoldPuts
                from .lib import _Del, built_items
                p = r.puts[0]
                if isinstance(p, FoldPuts):
                    n = self.seq_len(built_items(self, p, lambda k, v: k))
                    return n if isinstance(n, int) else SInt(n)
                if isinstance(p, tuple): return 0 if isinstance(p[0], _Del) else 1
            if isinstance(r, Dct) and r.base is None and all(isinstance(p, tuple) and isinstance(p[0], str) for p in r.puts):
                return len({p[0] for p in r.puts})
            if isinstance(r, Obj) and hasattr(r.cls, "__len__"): return self.call_method(v, "__len__", [], {})
        if isinstance(v, SSeqV):
            n = self.seq_len(v.segs)
            return n if isinstance(n, int) else SInt(n)
        if isinstance(v, SObj) and isinstance(v.td, TAbs) and "__len__" in v.td.methods:
            return v.td.methods["__len__"](self, v, [], {})
        if v is None or isinstance(v, (SInt, SBool, int, float, Opaque, SObj, SEnum)):
            self.raise_(TypeError, f"object has no len()")
        if isinstance(v, SV): raise Undecided(f"len of {v!r}")
        return len(v)

    # ------------------------------------------------------------- raising --
    def raise_(self, cls, *args):
        m = self.modstack[-1] if self.modstack else ""
        raise PyRaise(self.new_obj(cls, {"args": tuple(args)}), where=m)

    def exc_class(self, v):
        if isinstance(v, Ref): return self.heap[v.id].cls
        if isinstance(v, SRec): return v.cls
        if isinstance(v, BaseException): return type(v)
        raise Undecided(f"exception value {v!r}")

    # ------------------------------------------------------------- equality
    def eq(self, a, b):
        """python == ; bool or z3 Bool (may fork when user code is run)"""
        if isinstance(a, Poison): raise PoisonRead(a.loc)
        if isinstance(b, Poison): raise PoisonRead(b.loc)
        if isinstance(a, SUnion):
            return self._eq_union(a, b)
        if isinstance(b, SUnion):
            return self._eq_union(b, a)
        if not isinstance(a, SV) and not isinstance(b, SV):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b): return False
                return zand([self.eq(x, y) for x, y in zip(a, b)])
            return bool(a == b)
        if a is None or b is None: return False
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            if isinstance(a, str): a, b = b, a
            if isinstance(b, str) and self.strings == "abs" and z3.is_app(a.t) and a.t.decl().name() == "charat" and len(b) == 1 and z3.is_int_value(a.t.arg(1)) and a.t.arg(1).as_long() in (0, -1):
                # the first or last character of a text
                from . import lib
                return zb(self.truth_val(lib.str_method(self, SStr(a.t.arg(0)), "startswith" if a.t.arg(1).as_long() == 0 else "endswith", [b], {})))
            return self.st(a) == self.st(b)
        if isinstance(a, (SStr, str)) or isinstance(b, (SStr, str)):
            o = b if isinstance(a, (SStr, str)) else a
            if isinstance(o, (SObj, Ref, Opaque, SFun)):
                pass
            else:
                return False
        if isinstance(a, SEnum) or isinstance(b, SEnum):
            if not isinstance(a, SEnum): a, b = b, a
            if isinstance(b, SEnum):
                return a.t == b.t if a.cls is b.cls else False
            if isinstance(b, enum.Enum):
                if type(b) is not a.cls: return False
                return a.t == list(a.cls).index(b)
            return False
        num = (SInt, SBool, int, bool, float)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, float) or isinstance(b, float):
                f = a if isinstance(a, float) else b
                if math.isinf(f) or math.isnan(f): return False
                if f == int(f):
                    x = b if isinstance(a, float) else a
                    return self.it(x) == int(f)
                return False
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return zb(self.truth_val(a)) == zb(self.truth_val(b))
            return self.it(a) == self.it(b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return True
        for x, y in ((a, b), (b, a)):
            cls = self.static_class(x)
            if cls is not None and cls not in (object,):
                m = self.find_user_eq(cls)
                if m == "dataclass":
                    return self._eq_fields(x, y, cls)
                if m is not None:
                    r = self.call(m, [x, y], {})
                    return self.truth_val(r)
        if isinstance(a, (SObj, Opaque)) and isinstance(b, (SObj, Opaque)):
            if isinstance(a, SObj) and isinstance(b, SObj) and not isinstance(a.td, TAbs) and not isinstance(b.td, TAbs):
                if len(a.td.concrete) > 1 or len(b.td.concrete) > 1:
                    raise Undecided("eq on abstract class")
            return a.t == b.t
        if isinstance(a, SFun) and isinstance(b, SFun):
            if a is b: return True
            if a.ident is not None and b.ident is not None: return a.ident == b.ident
            raise Undecided("eq fun")
        la, lb = self.as_segs(a), self.as_segs(b)
        if la is not None and lb is not None:
            return self.seq_eq(la, lb)
        if isinstance(a, Ref) and isinstance(b, Ref):
            ra, rb = self.heap[a.id], self.heap[b.id]
            if isinstance(ra, Dct) and isinstance(rb, Dct):
                return self.dict_eq(ra, rb)
            return False
        if isinstance(a, SObj) and isinstance(b, Ref): a, b = b, a
        if isinstance(a, Ref) and isinstance(b, SObj) and isinstance(self.heap[a.id], Obj) and self.heap[a.id].cls.__eq__ is object.__eq__:
            # an object made here is none of the given ones; their class compares identities
            cb = b.td.cls if isinstance(b.td, TAbs) else None
            if isinstance(b.td, TAbs) and (cb is None or cb.__eq__ is object.__eq__) or not isinstance(b.td, TAbs) and all(x.__eq__ is object.__eq__ for x in b.td.concrete): return False
        if isinstance(a, (SObj, Opaque, Ref, SRec)) != isinstance(b, (SObj, Opaque, Ref, SRec)):
            return False
        raise Undecided(f"eq {a!r} {b!r}")

    def dict_eq(self, ra, rb):
        if ra.base is not rb.base: raise Undecided("dict eq bases")
        def norm(r):
            d = {}
            for p in r.puts:
                if not isinstance(p, tuple) or isinstance(p[0], SV): raise Undecided("dict eq symbolic keys")
                d[p[0]] = p[1]
            return d
        da, db = norm(ra), norm(rb)
        if set(da) != set(db): return False
        return zand([self.eq(da[k], db[k]) for k in da])

    def _eq_union(self, u, o):
        try:
            return zor([zand([c, self.eq(v, o)]) for c, v in u.cases if c is not False])
        except (Undecided, PyRaise):
            return self.eq(self.resolve(u), o)

    def _eq_fields(self, x, y, cls):
        if self.static_class(y) is not cls: return False
        for f in dataclasses.fields(cls):
            if not f.compare: continue
            if not self.branch(self.eq(self.getattr(x, f.name), self.getattr(y, f.name))):
                return False
        return True

    def static_class(self, v):
        if isinstance(v, SObj):
            if isinstance(v.td, TAbs): return None
            if len(v.td.concrete) == 1: return v.td.concrete[0]
            # same eq implementation for all?
            return None
        if isinstance(v, Ref):
            r = self.heap[v.id]
            return r.cls if isinstance(r, Obj) else None
        if isinstance(v, SRec): return v.cls
        return None

    def find_user_eq(self, cls):
        for c in cls.__mro__:
            if c is object: return None
            m = c.__dict__.get("__eq__")
            if m is not None:
                if isinstance(m, types.FunctionType):
                    if dataclasses.is_dataclass(c) and m.__code__.co_filename.startswith("<string>") or m.__qualname__.startswith("__create_fn__"):
                        return "dataclass"
                    return m
                return None
        return None

    def identical(self, a, b):
        if isinstance(a, Poison): raise PoisonRead(a.loc)
        if isinstance(b, Poison): raise PoisonRead(b.loc)
        if isinstance(a, SUnion): return zor([zand([c, self.identical(v, b)]) for c, v in a.cases])
        if isinstance(b, SUnion): return self.identical(b, a)
        if isinstance(a, Ref) and isinstance(b, Ref): return a.id == b.id
        if isinstance(a, (SObj, Opaque)) and isinstance(b, (SObj, Opaque)): return a.t == b.t
        if isinstance(a, SEnum) or isinstance(b, SEnum): return self.eq(a, b)
        if isinstance(a, SBool) or isinstance(b, SBool):
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)): return self.eq(a, b)
            return False
        if isinstance(a, SFun) and isinstance(b, SFun): return self.eq(a, b)
        if isinstance(a, SV) or isinstance(b, SV):
            if a is b: return True
            if type(a) != type(b): return False
            raise Undecided("is")
        return a is b

    def as_segs(self, v):
        if isinstance(v, Ref):
            r = self.heap[v.id]
            if isinstance(r, Lst): return r.segs
            return None
        if isinstance(v, SList):
            if isinstance(v.n, int): return tuple(Unit(v.nth(i)) for i in range(v.n))
            return (Span(v.n, v.nth),)
        if isinstance(v, SSeqV): return v.segs
        if isinstance(v, list): return tuple(Unit(x) for x in v)
        return None

    def seq_eq(self, a, b):
        a, b = list(a), list(b)
        out = []
        while a or b:
            if not a or not b:
                rest = a or b
                if any(isinstance(s, Unit) for s in rest): return False
                for s in rest:
                    if isinstance(s, Span): out.append(zi(s.n) == 0)
                    elif isinstance(s, FM):
                        j = self._qvar()
                        ne = zor([c for c, segs in s.cases(j) if segs])
                        out.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(s.n)), z3.Not(zb(ne)))))
                    else: raise Undecided("seq_eq")
                break
            x, y = a.pop(0), b.pop(0)
            if x is y: continue
            if isinstance(x, CarriedSeg) and isinstance(y, CarriedSeg) and x.loc == y.loc: continue
            if isinstance(x, Unit) and isinstance(y, Unit):
                out.append(self.merge_bool(lambda: self.to_bool_value(self.eq(x.v, y.v))))
            elif isinstance(x, Span) and isinstance(y, Span):
                if x.key is not None and x.key == y.key: continue
                out.append(zi(x.n) == zi(y.n))
                out.append(self.forall(zi(x.n), lambda j: self.to_bool_value(self.eq(x.nth(j), y.nth(j)))))
            elif isinstance(x, FM) and isinstance(y, FM):
                out.append(zi(x.n) == zi(y.n))
                def body(j):
                    i1 = self.decide([zb(c) for c, _ in x.cases(j)])
                    i2 = self.decide([zb(c) for c, _ in y.cases(j)])
                    return self.to_bool_value(self.seq_eq(x.cases(j)[i1][1], y.cases(j)[i2][1]))
                out.append(self.forall(zi(x.n), body))
            elif isinstance(x, FM) or isinstance(y, FM):
                # FM vs Span: treat Span as FM with single case
                if isinstance(x, Span): x, y = y, x
                if not isinstance(y, Span): raise Undecided("seq shape mismatch")
                fm2 = FM(y.n, lambda j, y=y: [(True, [Unit(y.nth(j))])])
                a.insert(0, x); b.insert(0, fm2)
            else:
                raise Undecided("seq shape mismatch")
        return zand(out)

    def _qvar(self):
        self.counter += 1
        return z3.Int(f"q!{self.counter}")

    def forall(self, n, body):
        """closed formula  forall 0<=j<n. body(j)  (body pure, boolean)"""
        j = self._qvar()
        sv = list(self.pc)
        def th():
            self.assume(z3.And(j >= 0, j < n))
            return self.truth_val(body(j))
        outs = self.explore(th, push_idx=j)
        cases = []
        for o in outs:
            if o.kind != "ok": raise Undecided(f"quantified body may {o.kind}")
            cases.append(zand(o.pc + [o.val]))
        f = zb(zor(cases))
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), f))

    # --------------------------------------------------------------- ints --
    def it(self, v):
        if isinstance(v, bool): return z3.IntVal(int(v))
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, SInt): return zi(v.t)
        if isinstance(v, SBool): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        raise Undecided(f"not an int: {v!r}")

    def mkint(self, t):
        t = z3.simplify(t) if z3.is_expr(t) else t
        if isinstance(t, int): return t
        if z3.is_int_value(t): return t.as_long()
        return SInt(t)

    # --------------------------------------------------- attribute access --
    def getattr(self, v, name, default=None, has_default=False):
        if isinstance(v, SUnion):
            if all(not isinstance(x, SV) and x is not None for _, x in v.cases):
                try:
                    return self.mk_union([(c, getattr(x, name)) for c, x in v.cases])
                except AttributeError:
                    pass
            v = self.resolve(v)
        if isinstance(v, Poison): raise PoisonRead(v.loc)
        r = self._getattr(v, name)
        if r is _MISSING:
            if has_default: return default
            self.raise_(AttributeError, f"no attribute {name}")
        return r

    def _getattr(self, v, name):
        if isinstance(v, Ref):
            r = self.heap[v.id]
            if isinstance(r, Obj):
                if name in r.fields:
                    x = r.fields[name]
                    if isinstance(x, Poison): raise PoisonRead(x.loc)
                    return x
                if name == "__class__": return r.cls
                if name == "code" and issubclass(r.cls, SystemExit):
                    a = r.fields.get("args", ())
                    return a[0] if len(a) else None
                if name == "__dict__": raise Undecided("__dict__")
                return self.class_attr(v, r.cls, name)
            return BMeth(v, name)
        if isinstance(v, SRec):
            if name in v.fields: return v.fields[name]
            if name == "__class__": return v.cls
            return self.class_attr(v, v.cls, name)
        if isinstance(v, SObj):
            return self.sobj_attr(v, name)
        if isinstance(v, SEnum):
            if name == "value":
                vals = [m.value for m in v.cls]
                if all(type(x) is int for x in vals):
                    if all(x == i + vals[0] for i, x in enumerate(vals)): return SInt(z3.simplify(v.t + vals[0]))
                    t = z3.IntVal(vals[-1])
                    for i in range(len(vals) - 2, -1, -1): t = z3.If(v.t == i, z3.IntVal(vals[i]), t)
                    return SInt(t)
                return self.mk_union([(v.t == i, m.value) for i, m in enumerate(v.cls)])
            if name == "name":
                return self.mk_union([(v.t == i, m.name) for i, m in enumerate(v.cls)])
            if name == "__class__": return v.cls
            return self.class_attr(v, v.cls, name)
        if isinstance(v, Closure):
            if name == "__name__": return v.name
            if name == "__doc__": return None
            raise Undecided(f"closure attr {name}")
        if isinstance(v, SFun):
            if name == "__name__": return SStr(self.fresh("fname", self.S))
            raise Undecided(f"fun attr {name}")
        if isinstance(v, (SStr, SInt, SBool, SList, SMap, SSeqV)):
            return BMeth(v, name)
        if isinstance(v, Opaque):
            raise Undecided(f"attribute {name} of opaque value")
        if isinstance(v, _Super):
            return self.super_attr(v, name)
        if isinstance(v, Bound) and name in ("__func__", "__code__", "__doc__", "__name__", "__qualname__", "__module__") and isinstance(v.func, types.FunctionType):
            return v.func if name == "__func__" else getattr(v.func, name)
        if isinstance(v, SV):
            raise Undecided(f"attr {name} of {v!r}")
        # concrete
        if inspect.isclass(v):
            return self.concrete_class_attr(v, name)
        if isinstance(v, types.ModuleType):
            k = (v.__name__, name)
            if k in self.global_over: return self.global_over[k]
        if isinstance(v, enum.Enum):
            a = inspect.getattr_static(type(v), name, None)
            if isinstance(a, types.FunctionType): return Bound(v, a)
        try:
            a = getattr(v, name)
        except AttributeError:
            return _MISSING
        if isinstance(v, (str, list, dict, set, frozenset, tuple, int, bytes)) and callable(a):
            return BMeth(v, name)
        return a

    def concrete_class_attr(self, cls, name):
        try:
            raw = inspect.getattr_static(cls, name)
        except AttributeError:
            try:
                return getattr(cls, name)
            except AttributeError:
                return _MISSING
        if isinstance(raw, classmethod): return Bound(cls, raw.__func__)
        if isinstance(raw, staticmethod): return raw.__func__
        return getattr(cls, name)

    def class_attr(self, v, cls, name):
        try:
            raw = inspect.getattr_static(cls, name)
        except AttributeError:
            return _MISSING
        if isinstance(raw, types.FunctionType): return Bound(v, raw)
        if isinstance(raw, classmethod): return Bound(cls, raw.__func__)
        if isinstance(raw, staticmethod): return raw.__func__
        if isinstance(raw, property): return self.call(raw.fget, [v], {})
        if isinstance(raw, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            return BMeth(v, name)
        return getattr(cls, name)

    def sobj_attr(self, v, name):
        td = v.td
        if isinstance(td, TAbs):
            if name in td.attrs:
                a = td.attrs[name]
                if a is None: return _MISSING
                if isinstance(a, TD): return self.mk(a, f"{td.name}.{name}", (v.t,))
                return a(self, v)
            if name in td.methods:
                return SFun(lambda eng, args, kw, h=td.methods[name]: h(eng, v, args, kw), f"{td.name}.{name}")
            if td.cls is not None and not isinstance(td.cls, tuple):
                r = self.class_attr(v, td.cls, name)
                if r is not _MISSING: return r
            raise Undecided(f"abstract {td.name} has no attribute {name}")
        if name == "__class__":
            if len(td.concrete) == 1: return td.concrete[0]
            return SUnion([(self.tag(v.t) == tag_of(c), c) for c in td.concrete])
        groups = {}
        for c in td.concrete:
            f = fields_of(c)
            if name in f:
                owner, ftd = f[name]
                key = ("field", owner.__qualname__, repr(ftd))
                payload = ("field", owner, td.overrides.get(name, ftd))
            else:
                try:
                    raw = inspect.getattr_static(c, name)
                    key = ("attr", id(raw)) if not isinstance(raw, (int, str, type(None))) else ("attr", repr(raw))
                    payload = ("attr", c, raw)
                except AttributeError:
                    key, payload = ("missing",), ("missing",)
            groups.setdefault(key, ([], payload))[0].append(c)
        gl = list(groups.values())
        if len(gl) == 1:
            g = gl[0]
            nv = v
        else:
            conds = [zor([self.tag(v.t) == tag_of(c) for c in g[0]]) for g in gl]
            g = gl[self.decide_first(conds)]
            nv = SObj(v.t, TObj(td.cls, g[0], td.overrides))
        p = g[1]
        if p[0] == "missing": return _MISSING
        if p[0] == "field":
            return self.mk(p[2], f"{p[1].__name__}.{name}", (v.t,))
        return self.class_attr(nv, p[1], name)

    def decide_first(self, conds):
        ids = {p.get_id() for p in self.pc}
        for i, c in enumerate(conds):
            if z3.is_expr(c) and c.get_id() in ids: return i
        return self.decide(conds)

    def super_attr(self, s, name):
        mro = s.cls_of_self.__mro__
        i = mro.index(s.defcls)
        for c in mro[i + 1:]:
            if name in c.__dict__:
                raw = c.__dict__[name]
                if isinstance(raw, types.FunctionType): return Bound(s.self_, raw)
                return SFun(lambda eng, a, k: None, f"super.{name}")
        return SFun(lambda eng, a, k: None, f"super.{name}")

    def setattr(self, v, name, x):
        v = self.resolve(v)
        if isinstance(v, Ref):
            r = self.heap[v.id]
            if isinstance(r, Obj):
                f = dict(r.fields)
                f[name] = x
                self.heap[v.id] = Obj(r.cls, f, r.sym)
                return
        if isinstance(v, SObj) and isinstance(v.td, TAbs) and "__setattr__" in v.td.methods:
            v.td.methods["__setattr__"](self, v, [name, x], {})
            return
        raise Undecided(f"setattr {name} on {v!r}")

    # ---------------------------------------------------------------- calls
    def call_method(self, recv, name, args, kwargs):
        f = self.getattr(recv, name)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        f = self.resolve(f)
        self.steps += 1
        if isinstance(f, Bound):
            if isinstance(f.func, types.FunctionType) and f.func in self.models:
                return self.models[f.func](self, [f.self_] + list(args), kwargs)
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, SFun):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, BMeth):
            from . import lib
            return lib.method(self, f.recv, f.name, list(args), kwargs)
        if isinstance(f, Closure):
            return self.run_function(f.node, f.env, f.fid, f.defaults, f.kwdefaults, args, kwargs, f.name, f.defcls)
        try:
            h = self.models.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, list(args), kwargs)
        if isinstance(f, types.BuiltinFunctionType) and isinstance(f.__self__, re.Pattern) and f.__name__ in ("match", "fullmatch", "search"):
            if len(args) != 1 or kwargs: raise Undecided("pattern method arguments")
            return self.models[getattr(re, f.__name__)](self, [f.__self__] + list(args), {})
        if isinstance(f, types.MethodType):
            s = f.__self__
            if f.__func__ in self.models:
                return self.models[f.__func__](self, [s] + list(args), kwargs)
            return self.call(f.__func__, [s] + list(args), kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), {**f.keywords, **kwargs})
        if isinstance(f, types.FunctionType):
            return self.call_pyfunc(f, args, kwargs)
        if inspect.isclass(f):
            return self.construct(f, args, kwargs)
        if isinstance(f, SObj) and isinstance(f.td, TAbs) and "__call__" in f.td.methods:
            return f.td.methods["__call__"](self, f, list(args), kwargs)
        if isinstance(f, SV): raise Undecided(f"call of {f!r}")
        if f is None: self.raise_(TypeError, "'NoneType' object is not callable")
        # native builtin on concrete arguments
        if all(self.is_concrete(a) for a in args) and all(self.is_concrete(a) for a in kwargs.values()):
            return self.native(f, args, kwargs)
        raise Undecided(f"call of unmodelled {f!r}")

    def is_concrete(self, v):
        if isinstance(v, SV): return False
        if isinstance(v, (tuple, list)): return all(self.is_concrete(x) for x in v)
        if isinstance(v, dict): return all(self.is_concrete(x) for x in v.values())
        return True

    def native(self, f, args, kwargs):
        self.lib_used.add(getattr(f, "__qualname__", repr(f)))
        try:
            r = f(*args, **kwargs)
        except Exception as e:
            raise PyRaise(self.new_obj(type(e), {"args": tuple(e.args)}))
        return self.lift(r)

    def lift(self, r):
        if isinstance(r, list): return self.new_list([self.lift(x) for x in r])
        if isinstance(r, dict): return self.alloc(Dct(None, [(k, self.lift(x)) for k, x in r.items()]))
        if isinstance(r, set) : return self.alloc(Set_(list(r)))
        return r

    def env_of(self, fn):
        return fn.__globals__

    def call_pyfunc(self, f, args, kwargs):
        mod = getattr(f, "__module__", "") or ""
        node = fn_node(f)
        if mod.startswith("aas_test_engines"):
            self.fn_seen.add(f"{mod}:{f.__qualname__}")
        elif not (mod.startswith("contracts") or mod.startswith("pyvc") or mod in self.inline_modules):
            if all(self.is_concrete(a) for a in args) and all(self.is_concrete(a) for a in kwargs.values()):
                return self.native(f, args, kwargs)
            raise Undecided(f"call of library function {mod}.{f.__qualname__}")
        defcls = None
        cl = None
        if f.__closure__:
            cl = {n: c.cell_contents for n, c in zip(f.__code__.co_freevars, f.__closure__) if n != "__class__"}
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                if n == "__class__": defcls = c.cell_contents
        defaults = list(f.__defaults__ or ())
        kwd = dict(f.__kwdefaults__ or {})
        fid = None
        if cl:
            fid = self.alloc(Frame(dict(cl))).id
            self.heap[fid].vars["__parent__"] = None
        return self.run_function(node, f.__globals__, fid, defaults, kwd, args, kwargs, f.__qualname__, defcls)

    inline_modules = set()
    MAXDEPTH = 60

    def run_function(self, node, env, parent, defaults, kwdefaults, args, kwargs, name, defcls=None):
        if self.depth > self.MAXDEPTH: raise Undecided(f"recursion too deep in {name}")
        if "**" in kwargs: raise Undecided("** of symbolic dict")
        a = node.args
        vars = {"__parent__": parent, "__env__": env}
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(params):
            if i < len(args): vars[p] = args[i]
            elif p in kwargs: vars[p] = kwargs.pop(p)
            else:
                di = i - (len(params) - len(defaults))
                if di >= 0: vars[p] = defaults[di]
                else: self.raise_(TypeError, f"{name}() missing argument {p}")
        if len(args) > len(params):
            if a.vararg: vars[a.vararg.arg] = tuple(args[len(params):])
            else: self.raise_(TypeError, f"{name}() takes {len(params)} arguments")
        elif a.vararg: vars[a.vararg.arg] = ()
        for p in a.kwonlyargs:
            if p.arg in kwargs: vars[p.arg] = kwargs.pop(p.arg)
            elif p.arg in kwdefaults: vars[p.arg] = kwdefaults[p.arg]
            else: self.raise_(TypeError, f"{name}() missing kw argument {p.arg}")
        if a.kwarg: vars[a.kwarg.arg] = self.alloc(Dct(None, list(kwargs.items())))
        elif kwargs: self.raise_(TypeError, f"{name}() got unexpected keyword {list(kwargs)[0]}")
        if defcls is not None: vars["__class__"] = defcls
        if params: vars["__self__"] = params[0]
        fid = self.alloc(Frame(vars)).id
        self.depth += 1
        self.modstack.append(env.get("__name__", "") if isinstance(env, dict) else "")
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fid)
            gen = is_generator(node)
            if gen:
                out = self.new_list([])
                self.setvar(fid, "__yield__", out)
            try:
                self.ex_block(node.body, fid)
            except _Ret as r:
                if not gen: return r.v
            if gen: return self.getvar_raw(fid, "__yield__")
            return None
        finally:
            self.depth -= 1
            self.modstack.pop()

    def construct(self, cls, args, kwargs):
        if issubclass(cls, enum.Enum):
            v = self.resolve(args[0])
            ms = list(cls)
            if not isinstance(v, SV):
                return self.native(cls, args, kwargs)
            if isinstance(v, SEnum) and v.cls is cls: return v
            conds = [self.eq(v, m.value) for m in ms]
            ok = zor(conds)
            if not self.branch(ok): self.raise_(ValueError, "not a valid enum value")
            vals = [m.value for m in ms]
            if isinstance(v, SInt) and all(type(x) is int for x in vals) and all(x == i + vals[0] for i, x in enumerate(vals)):
                return SEnum(cls, z3.simplify(v.t - vals[0]))
            t = z3.IntVal(len(ms) - 1)
            for i in range(len(ms) - 2, -1, -1): t = z3.If(zb(conds[i]), z3.IntVal(i), t)
            t = z3.simplify(t)
            return ms[t.as_long()] if z3.is_int_value(t) else SEnum(cls, t)
        if issubclass(cls, BaseException):
            o = self.new_obj(cls, {"args": tuple(args)})
            init = inspect.getattr_static(cls, "__init__", None)
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + list(args), kwargs)
            return o
        mod = cls.__module__
        if cls in (object,): return self.new_obj(cls, {})
        init = inspect.getattr_static(cls, "__init__", None)
        if dataclasses.is_dataclass(cls) and isinstance(init, types.FunctionType) and init.__qualname__.endswith("__init__") and self._is_generated(init):
            fields = {}
            args = list(args)
            kwargs = dict(kwargs)
            for f in dataclasses.fields(cls):
                if not f.init: continue
                if args: fields[f.name] = args.pop(0)
                elif f.name in kwargs: fields[f.name] = kwargs.pop(f.name)
                elif f.default is not dataclasses.MISSING: fields[f.name] = f.default
                elif f.default_factory is not dataclasses.MISSING: fields[f.name] = self.call(f.default_factory, [], {})
                else: self.raise_(TypeError, f"missing {f.name}")
            if args or kwargs: self.raise_(TypeError, "unexpected args")
            return self.new_obj(cls, fields)
        if isinstance(init, types.FunctionType) and (mod.startswith("aas_test_engines") or mod.startswith("contracts") or mod in self.inline_modules):
            o = self.new_obj(cls, {})
            self.call(init, [o] + list(args), kwargs)
            return o
        if mod.startswith("aas_test_engines") and not isinstance(init, types.FunctionType):
            if args or kwargs: self.raise_(TypeError, f"{cls.__name__}() takes no arguments")
            return self.new_obj(cls, {})
        if all(self.is_concrete(a) for a in args) and all(self.is_concrete(a) for a in kwargs.values()):
            return self.native(cls, args, kwargs)
        raise Undecided(f"construct {cls}")

    def _is_generated(self, fn):
        return fn.__code__.co_filename.startswith("<")

    # ------------------------------------------------------------ variables
    def getvar_raw(self, fid, name):
        return self.heap[fid].vars[name]

    def setvar(self, fid, name, v):
        fr = self.heap[fid]
        g = fr.vars.get("__nonlocal__")
        if g and name in g:
            p = fr.vars["__parent__"]
            while p is not None:
                if name in self.heap[p].vars:
                    return self.setvar(p, name, v)
                p = self.heap[p].vars.get("__parent__")
        d = dict(fr.vars)
        d[name] = v
        self.heap[fid] = Frame(d)

    def lookup(self, fid, name):
        f = fid
        env = None
        while f is not None:
            vs = self.heap[f].vars
            if env is None: env = vs.get("__env__")
            if name in vs:
                v = vs[name]
                if isinstance(v, Poison): raise PoisonRead(v.loc)
                return v
            f = vs.get("__parent__")
        if env is not None and name in env:
            k = (env.get("__name__"), name)
            if k in self.global_over: return self.global_over[k]
            return env[name]
        if hasattr(builtins, name): return getattr(builtins, name)
        self.raise_(NameError, name)

    # ---------------------------------------------------------- statements --
    def ex_block(self, stmts, fid):
        for s in stmts: self.ex(s, fid)

    def ex(self, s, fid):
        self.steps += 1
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None: raise Undecided(f"statement {type(s).__name__}")
        return m(s, fid)

    def x_Pass(self, s, fid): pass
    def x_Expr(self, s, fid): self.ev(s.value, fid)
    def x_Return(self, s, fid): raise _Ret(self.ev(s.value, fid) if s.value else None)
    def x_Break(self, s, fid): raise _Brk()
    def x_Continue(self, s, fid): raise _Cnt()

    def x_Nonlocal(self, s, fid):
        g = set(self.heap[fid].vars.get("__nonlocal__") or ()) | set(s.names)
        self.setvar(fid, "__nonlocal__", frozenset(g))

    def x_Global(self, s, fid): raise Undecided("global statement")

    def x_Import(self, s, fid):
        for a in s.names:
            m = importlib.import_module(a.name)
            self.setvar(fid, a.asname or a.name.split(".")[0], m if a.asname else sys.modules[a.name.split(".")[0]])

    def x_ImportFrom(self, s, fid):
        env = self.heap[fid].vars["__env__"]
        m = importlib.import_module("." * s.level + (s.module or ""), env.get("__package__"))
        for a in s.names:
            self.setvar(fid, a.asname or a.name, getattr(m, a.name))

    def x_FunctionDef(self, s, fid):
        if s.decorator_list: raise Undecided("decorated nested function")
        self.setvar(fid, s.name, self.mk_closure(s, fid, s.name))

    def mk_closure(self, node, fid, name):
        env = self.heap[fid].vars["__env__"]
        d = [self.ev(x, fid) for x in node.args.defaults]
        kd = {p.arg: self.ev(x, fid) for p, x in zip(node.args.kwonlyargs, node.args.kw_defaults) if x is not None}
        return Closure(node, fid, env, name, d, kd, self.heap[fid].vars.get("__class__"))

    def x_If(self, s, fid):
        if self.truth(self.ev(s.test, fid)): self.ex_block(s.body, fid)
        else: self.ex_block(s.orelse, fid)

    def x_Assert(self, s, fid):
        if not self.truth(self.ev(s.test, fid)):
            self.raise_(AssertionError)

    def x_Raise(self, s, fid):
        if s.exc is None:
            raise PyRaise(self.heap[fid].vars["__exc__"])
        v = self.resolve(self.ev(s.exc, fid))
        if inspect.isclass(v): v = self.construct(v, [], {})
        if isinstance(v, BaseException): v = self.new_obj(type(v), {"args": tuple(v.args)})
        raise PyRaise(v)

    def x_Try(self, s, fid):
        def body():
            try:
                self.ex_block(s.body, fid)
            except PyRaise as e:
                cls = self.exc_class(e.val)
                for h in s.handlers:
                    if h.type is None: match = True
                    else:
                        t = self.ev(h.type, fid)
                        ts = t if isinstance(t, tuple) else (t,)
                        match = any(issubclass(cls, x) for x in ts)
                    if match:
                        if h.name: self.setvar(fid, h.name, e.val)
                        self.setvar(fid, "__exc__", e.val)
                        self.ex_block(h.body, fid)
                        return
                raise
            else:
                self.ex_block(s.orelse, fid)
        if s.finalbody:
            try:
                body()
            except (PyRaise, _Ret, _Brk, _Cnt):
                self.ex_block(s.finalbody, fid)
                raise
            self.ex_block(s.finalbody, fid)
        else:
            body()

    def x_With(self, s, fid):
        self.with_items(s, 0, fid)

    def with_items(self, s, i, fid):
        if i == len(s.items):
            self.ex_block(s.body, fid)
            return
        it = s.items[i]
        mgr = self.resolve(self.ev(it.context_expr, fid))
        v = self.call_method(mgr, "__enter__", [], {})
        if it.optional_vars is not None: self.assign(it.optional_vars, v, fid)
        try:
            self.with_items(s, i + 1, fid)
        except PyRaise as e:
            r = self.call_method(mgr, "__exit__", [self.exc_class(e.val), e.val, None], {})
            if not self.truth(r): raise
        except (_Ret, _Brk, _Cnt):
            self.call_method(mgr, "__exit__", [None, None, None], {})
            raise
        else:
            self.call_method(mgr, "__exit__", [None, None, None], {})

    def x_Assign(self, s, fid):
        v = self.ev(s.value, fid)
        for t in s.targets: self.assign(t, v, fid)

    def x_AnnAssign(self, s, fid):
        if s.value is not None: self.assign(s.target, self.ev(s.value, fid), fid)

    def x_AugAssign(self, s, fid):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fid, t.id)
            self.setvar(fid, t.id, self.augop(s.op, cur, self.ev(s.value, fid)))
        elif isinstance(t, ast.Attribute):
            o = self.resolve(self.ev(t.value, fid))
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(s.op, cur, self.ev(s.value, fid)))
        elif isinstance(t, ast.Subscript):
            o = self.resolve(self.ev(t.value, fid))
            k = self.ev(t.slice, fid)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(s.op, cur, self.ev(s.value, fid)))
        else: raise Undecided("augassign")

    def augop(self, op, cur, v):
        cur = self.resolve(cur)
        if isinstance(cur, Ref):
            r = self.heap[cur.id]
            if isinstance(r, Lst) and isinstance(op, ast.Add):
                self.heap[cur.id] = Lst(r.segs + tuple(self.iter_segs(v)))
                return cur
            if isinstance(r, Obj):
                nm = {ast.Add: "__iadd__", ast.BitOr: "__ior__"}.get(type(op))
                if nm and hasattr(r.cls, nm): return self.call_method(cur, nm, [v], {})
            if isinstance(r, (Set_, Dct)) and isinstance(op, ast.BitOr):
                from . import lib
                lib.method(self, cur, "update", [v], {})
                return cur
        return self.binop(op, cur, v)

    def x_Delete(self, s, fid):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr = self.heap[fid]
                d = dict(fr.vars); d.pop(t.id, None)
                self.heap[fid] = Frame(d)
            elif isinstance(t, ast.Subscript):
                o = self.resolve(self.ev(t.value, fid))
                k = self.slice_val(t.slice, fid)
                from . import lib
                lib.delitem(self, o, k)
            else: raise Undecided("del")

    def assign(self, t, v, fid):
        if isinstance(t, ast.Name): self.setvar(fid, t.id, v)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, fid), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.resolve(self.ev(t.value, fid)), self.slice_val(t.slice, fid), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(t.elts[-1], ast.Starred) and not any(isinstance(e, ast.Starred) for e in t.elts[:-1]):
                v = self.resolve(v)
                segs = None if isinstance(v, tuple) else self.iter_segs(v)
                if segs is not None and not all(isinstance(x, Unit) for x in segs):
                    m = len(t.elts) - 1
                    if not self.branch(zi(self.seq_len(segs)) >= m): self.raise_(ValueError, "not enough values to unpack")
                    from . import lib
                    rest = lib.getslice(self, self.alloc(Lst(segs)), slice(m, None, None))
                    for i, e in enumerate(t.elts[:-1]): self.assign(e, self.seq_index(segs, i), fid)
                    self.assign(t.elts[-1].value, rest, fid)
                    return
            vs = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)][0]
                after = len(t.elts) - k - 1
                if len(vs) < len(t.elts) - 1: self.raise_(ValueError, "not enough values to unpack")
                vs = vs[:k] + [self.new_list(vs[k:len(vs) - after])] + (vs[len(vs) - after:] if after else [])
                for e, x in zip(t.elts, vs):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fid)
                return
            for e, x in zip(t.elts, vs): self.assign(e, x, fid)
        else: raise Undecided("assign target")

    def unpack(self, v, n, star=False):
        v = self.resolve(v)
        if isinstance(v, tuple):
            vs = list(v)
        else:
            segs = self.iter_segs(v)
            if not all(isinstance(s, Unit) for s in segs):
                if star: raise Undecided("starred unpack")
                ln = self.seq_len(segs)
                if not self.branch(zi(ln) == n): self.raise_(ValueError, "unpack")
                return [self.seq_index(segs, i) for i in range(n)]
            vs = [s.v for s in segs]
        if not star and len(vs) != n: self.raise_(ValueError, "unpack")
        return vs

    # --------------------------------------------------------------- loops --
    def x_For(self, s, fid):
        it = self.ev(s.iter, fid)
        def body(v):
            self.assign(s.target, v, fid)
            self.ex_block(s.body, fid)
        try:
            self.run_loop(it, body, s)
        except _Brk:
            return
        self.ex_block(s.orelse, fid)

    def x_While(self, s, fid):
        # concrete unrolling first
        for _ in range(self.UNROLL):
            c = self.ev(s.test, fid)
            t = self.truth_val(c)
            if isinstance(t, bool) or z3.is_true(t) or z3.is_false(t):
                t = bool(t) if isinstance(t, bool) else z3.is_true(t)
                if not t:
                    self.ex_block(s.orelse, fid)
                    return
                try:
                    self.ex_block(s.body, fid)
                except _Brk: return
                except _Cnt: pass
            elif self.bounded is not None:
                if not self.branch(t):
                    self.ex_block(s.orelse, fid)
                    return
                try:
                    self.ex_block(s.body, fid)
                except _Brk: return
                except _Cnt: pass
            else:
                break
        else:
            raise Undecided("while loop not finished by unrolling")
        def it(k):
            if not self.truth(self.ev(s.test, fid)): raise _Done()
            self.ex_block(s.body, fid)
        from . import loops
        try:
            loops.summarize(self, None, it, s)
        except _Brk:
            return
        self.ex_block(s.orelse, fid)

    def run_loop(self, it, body, tag):
        """body(v) for every element; _Cnt handled here; _Brk propagates"""
        segs = list(self.iter_segs(it))
        if sum(isinstance(x, Unit) for x in segs) > self.UNROLL: raise Undecided("long concrete loop")
        from . import loops
        for s in segs:
            if isinstance(s, Unit):
                try: body(s.v)
                except _Cnt: pass
            elif isinstance(s, Span):
                loops.summarize(self, zi(s.n), lambda k, s=s: body(s.nth(k)), tag)
            elif isinstance(s, FM):
                def bd(k, s=s):
                    cs = s.cases(k)
                    i = self.decide([zb(c) for c, _ in cs])
                    for x in cs[i][1]:
                        if isinstance(x, Unit):
                            try: body(x.v)
                            except _Cnt: pass
                        elif isinstance(x, (Span, FM)):
                            self.run_loop(SSeqV((x,)), body, (tag, "inner"))
                        else: raise Undecided("nested segment iteration")
                loops.summarize(self, zi(s.n), bd, tag)
            else:
                raise Undecided("iteration over accumulating list")

    def iter_segs(self, v):
        v = self.resolve(v)
        if isinstance(v, Ref):
            r = self.heap[v.id]
            if isinstance(r, Lst): return list(r.segs)
            if isinstance(r, Dct):
                from . import lib
                return lib.dict_keys_segs(self, r)
            if isinstance(r, Set_):
                if r.preds or len(r.elems) > 1: raise Undecided("iteration over symbolic set")
                return [Unit(x) for x in r.elems]
            if isinstance(r, Obj) and hasattr(r.cls, "__iter__"):
                return self.iter_segs(self.call_method(v, "__iter__", [], {}))
        if isinstance(v, SList):
            if isinstance(v.n, int): return [Unit(v.nth(i)) for i in range(v.n)]
            return [Span(v.n, v.nth)]
        if isinstance(v, SMap): return [Span(v.n, lambda i: SStr(v.key(i)))]
        if isinstance(v, SSeqV): return list(v.segs)
        if isinstance(v, SObj) and isinstance(v.td, TAbs) and "__iter__" in v.td.methods:
            return self.iter_segs(v.td.methods["__iter__"](self, v, [], {}))
        if isinstance(v, SStr):
            raise Undecided("iteration over symbolic string")
        if v is None or isinstance(v, (SInt, SBool, SEnum, SObj, Opaque, int, float)):
            self.raise_(TypeError, "object is not iterable")
        if isinstance(v, SV): raise Undecided(f"iterate {v!r}")
        return [Unit(x) for x in v]

    def seq_index(self, segs, i):
        """element at (z3/int) index i of segments, i known in range"""
        segs = list(segs)
        if len(segs) == 1 and isinstance(segs[0], Span):
            return segs[0].nth(zi(i))
        if all(isinstance(s, Unit) for s in segs):
            if isinstance(i, int): return segs[i].v
            if z3.is_int_value(i): return segs[i.as_long()].v
            j = self.decide([i == n for n in range(len(segs))])
            return segs[j].v
        off = 0
        for s in segs:
            if isinstance(s, Unit):
                c = zi(i) == off
                n = 1
            elif isinstance(s, Span):
                n = s.n
                c = z3.And(zi(i) >= off, zi(i) < off + n)
            else:
                raise Undecided("index into flat-map list")
            if self.branch(z3.simplify(c)):
                return s.v if isinstance(s, Unit) else s.nth(z3.simplify(zi(i) - off))
            off = off + n
        raise PathInfeasible()

    # --------------------------------------------------------- expressions --
    def ev(self, e, fid):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Undecided(f"expression {type(e).__name__}")
        return m(e, fid)

    def e_Constant(self, e, fid): return e.value
    def e_Name(self, e, fid): return self.lookup(fid, e.id)

    def e_Attribute(self, e, fid):
        v = self.ev(e.value, fid)
        return self.getattr(v, e.attr)

    def e_NamedExpr(self, e, fid):
        v = self.ev(e.value, fid)
        self.setvar(fid, e.target.id, v)
        return v

    def e_Tuple(self, e, fid):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs = self.iter_segs(self.ev(x.value, fid))
                if not all(isinstance(s, Unit) for s in segs): raise Undecided("star tuple")
                out.extend(s.v for s in segs)
            else: out.append(self.ev(x, fid))
        return tuple(out)

    def e_List(self, e, fid):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred): segs.extend(self.iter_segs(self.ev(x.value, fid)))
            else: segs.append(Unit(self.ev(x, fid)))
        return self.alloc(Lst(segs))

    def e_Set(self, e, fid):
        vs = [self.ev(x, fid) for x in e.elts]
        if all(self.is_concrete(v) for v in vs): return frozenset(vs)
        return self.alloc(Set_(vs))

    def merged(self, a, b): return b if a is None else Merged(self, a, b)

    def e_Dict(self, e, fid):
        base, puts = None, []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.resolve(self.ev(v, fid))
                if isinstance(d, Ref) and isinstance(self.heap[d.id], Dct):
                    r = self.heap[d.id]
                    if r.base is not None:
                        if puts: raise Undecided("dict merge")
                        base = self.merged(base, r.base)
                    puts.extend(r.puts)
                elif isinstance(d, SMap):
                    if puts: raise Undecided("dict merge")
                    base = self.merged(base, d)
                elif isinstance(d, dict): puts.extend(d.items())
                else: raise Undecided("dict merge")
            else:
                kv = self.resolve(self.ev(k, fid))
                puts.append((kv, self.ev(v, fid)))
        return self.alloc(Dct(base, puts))

    def e_Lambda(self, e, fid): return self.mk_closure(e, fid, "<lambda>")

    def e_IfExp(self, e, fid):
        if self.truth(self.ev(e.test, fid)): return self.ev(e.body, fid)
        return self.ev(e.orelse, fid)

    def e_BoolOp(self, e, fid):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fid)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if is_and and not t:
                return self.known_falsy(v)
            if not is_and and t:
                return v
        return v

    def known_falsy(self, v):
        if isinstance(v, SBool): return False
        return v

    def e_UnaryOp(self, e, fid):
        v = self.ev(e.operand, fid)
        if isinstance(e.op, ast.Not):
            return self.to_bool_value(znot(self.truth_val(v)))
        v = self.resolve(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (SInt, SBool)): return self.mkint(-self.it(v))
            return -v
        if isinstance(e.op, ast.UAdd): return v
        raise Undecided("unary op")

    def e_BinOp(self, e, fid):
        a = self.ev(e.left, fid)
        b = self.ev(e.right, fid)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        from . import lib
        return lib.binop(self, op, a, b)

    def e_Compare(self, e, fid):
        left = self.ev(e.left, fid)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fid)
            t = self.compare(op, left, right)
            if len(e.ops) == 1: return self.to_bool_value(t)
            if not self.branch(t): return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq): return self.eq(a, b)
        if isinstance(op, ast.NotEq): return znot(self.eq(a, b))
        if isinstance(op, ast.Is): return self.identical(a, b)
        if isinstance(op, ast.IsNot): return znot(self.identical(a, b))
        if isinstance(op, ast.In): return self.contains(b, a)
        if isinstance(op, ast.NotIn): return znot(self.contains(b, a))
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            if a is None or b is None or isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
                self.raise_(TypeError, "not orderable")
            if isinstance(a, float) or isinstance(b, float):
                return self.cmp_float(op, a, b)
            x, y = self.it(a), self.it(b)
            return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
        if isinstance(a, SV) or isinstance(b, SV):
            from . import lib
            r = lib.compare(self, op, a, b)
            if r is not None: return r
            raise Undecided(f"compare {a!r} {b!r}")
        try:
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        except TypeError as ex:
            self.raise_(TypeError, str(ex))

    def cmp_float(self, op, a, b):
        f, other, flip = (a, b, True) if isinstance(a, float) else (b, a, False)
        x = self.it(other)
        o = type(op)
        if flip: o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[o]
        # compare x o f
        if math.isnan(f): return False
        if math.isinf(f):
            return (o in (ast.Lt, ast.LtE)) == (f > 0)
        fl, ce = math.floor(f), math.ceil(f)
        if o is ast.Lt: return x < ce
        if o is ast.LtE: return x <= fl
        if o is ast.Gt: return x > fl
        return x >= ce

    def contains(self, c, v):
        c = self.resolve(c)
        from . import lib
        return lib.contains(self, c, v)

    def slice_val(self, s, fid):
        if isinstance(s, ast.Slice):
            return slice(*[self.resolve(self.ev(x, fid)) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fid)

    def e_Subscript(self, e, fid):
        o = self.resolve(self.ev(e.value, fid))
        k = self.slice_val(e.slice, fid)
        return self.getitem(o, k)

    def getitem(self, o, k):
        from . import lib
        return lib.getitem(self, o, k)

    def setitem(self, o, k, v):
        from . import lib
        return lib.setitem(self, o, k, v)

    def e_Call(self, e, fid):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            vs = self.heap[fid].vars
            f = fid
            while "__class__" not in self.heap[f].vars:
                f = self.heap[f].vars.get("__parent__")
                if f is None: raise Undecided("super")
            vs = self.heap[f].vars
            s = vs[vs["__self__"]]
            cls = self.static_class(s) if not inspect.isclass(s) else s
            if cls is None: raise Undecided("super of abstract object")
            return _Super(s, vs["__class__"], cls)
        f = self.ev(e.func, fid)
        # lazy evaluation for any/all over generator expressions
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                segs = self.iter_segs(self.ev(a.value, fid))
                if not all(isinstance(s, Unit) for s in segs): raise Undecided("star args")
                args.extend(s.v for s in segs)
            elif isinstance(a, ast.GeneratorExp) and f in (any, all, next) and f not in ():
                return self.quant_call(f, a, e, fid)
            else:
                args.append(self.ev(a, fid))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.resolve(self.ev(k.value, fid))
                if isinstance(d, Ref) and isinstance(self.heap[d.id], Dct):
                    r = self.heap[d.id]
                    if r.base is not None or not all(isinstance(p, tuple) for p in r.puts):
                        kwargs["**"] = d
                        continue
                    for kk, vv in r.puts:
                        if not isinstance(kk, str): raise Undecided("** key")
                        kwargs[kk] = vv
                elif isinstance(d, dict): kwargs.update(d)
                elif isinstance(d, SMap) or True:
                    kwargs["**"] = d
            else:
                kwargs[k.arg] = self.ev(k.value, fid)
        return self.call(f, args, kwargs)

    def quant_chars(self, f, gen, fid):
        """all/any of a condition on the characters of a symbolic text: its exact language"""
        g = gen.generators[0]
        if self.strings != "abs" or len(gen.generators) != 1 or not isinstance(g.target, ast.Name) or g.is_async: return None
        if not isinstance(g.iter, (ast.Name, ast.Attribute)): return None
        v = self.resolve(self.ev(g.iter, fid))
        if not isinstance(v, SStr): return None
        env, c = {}, g.target.id
        for n in [x for y in [gen.elt] + g.ifs for x in ast.walk(y)]:
            if isinstance(n, (ast.Lambda, ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Await, ast.Yield)): return None
            if isinstance(n, ast.Name) and n.id != c:
                try: x = self.lookup(fid, n.id)
                except Exception: return None
                if not (isinstance(x, (str, int, frozenset, tuple, set, list, dict)) or x in (str, int, len, ord, chr, isinstance) or isinstance(x, re.Pattern)) or isinstance(x, SV): return None
                if isinstance(x, (set, list, dict, tuple, frozenset)) and not all(isinstance(i, (str, int)) for i in x): return None
                env[n.id] = x
        cond = gen.elt
        if g.ifs: cond = ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), i) for i in g.ifs] + [gen.elt]) if f is all else ast.BoolOp(ast.And(), list(g.ifs) + [gen.elt])
        lam = ast.Expression(ast.Lambda(ast.arguments([], [ast.arg(c)], None, [], [], None, []), cond))
        pred0 = eval(compile(ast.fix_missing_locations(lam), "<chars>", "eval"), dict(env))
        key = f"{f.__name__} chars {ast.unparse(cond)} {sorted((k, repr(sorted(x) if isinstance(x, (set, frozenset)) else x)) for k, x in env.items())}"
        try:
            from . import lang
            lang.by_enumeration("chars " + key, lambda q: bool(pred0(q)))
        except Exception: return None
        self.str_auto[key] = (lambda: lang.AllCharsAuto("chars " + key, pred0, True)) if f is all else (lambda: lang.SomeCharAuto("chars " + key, pred0))
        return self.to_bool_value(self.str_pred(key, v, lambda s: f(bool(pred0(q)) for q in s)))

    def quant_call(self, f, gen, e, fid):
        """any/all/next over a generator expression"""
        if f is next:
            has_def = len(e.args) > 1
            dflt = self.ev(e.args[1], fid) if has_def else None
            try:
                self.comp(gen.generators, 0, fid, lambda cf: self._raise_ret(self.ev(gen.elt, cf)), gen)
            except _QRet as q:
                return q.v
            if has_def: return dflt
            self.raise_(StopIteration)
        r = self.quant_chars(f, gen, fid)
        if r is not None: return r
        # try pure closed formula when iterating symbolic sequences
        want = f is any
        try:
            heap0, pc0, cnt0 = dict(self.heap), list(self.pc), self.counter
            tr, pos = [Decision(d.choice, list(d.alts)) for d in self.trace], self.pos
            r = self.quant_pure(gen, want, fid)
            return self.to_bool_value(r)
        except Undecided:
            self.heap, self.pc, self.counter = heap0, pc0, cnt0
            self.trace[:] = tr
            self.pos = pos
        def body(cf):
            if self.truth(self.ev(gen.elt, cf)) == want: raise _QRet(None)
        try:
            self.comp(gen.generators, 0, fid, body, gen)
        except _QRet:
            return want
        return not want

    def _raise_ret(self, v): raise _QRet(v)

    def quant_pure(self, gen, want, fid):
        if len(gen.generators) != 1: raise Undecided("nested generators")
        g = gen.generators[0]
        it = self.ev(g.iter, fid)
        segs = self.iter_segs(it)
        cf = self.alloc(Frame({"__parent__": fid, "__env__": self.heap[fid].vars["__env__"]})).id
        parts = []
        def elem(v):
            self.assign(g.target, v, cf)
            for c in g.ifs:
                if not self.truth(self.ev(c, cf)): return (not want)
            return self.truth_val(self.ev(gen.elt, cf))
        for s in segs:
            if isinstance(s, Unit):
                t = self.pure_formula(lambda: elem(s.v))
                parts.append(t)
            elif isinstance(s, Span):
                parts.append(self.quantify(s.n, lambda j: elem(s.nth(j)), want))
            elif isinstance(s, FM):
                def el(j):
                    cs = s.cases(j)
                    i = self.decide([zb(c) for c, _ in cs])
                    ps = []
                    for x in cs[i][1]:
                        if not isinstance(x, Unit): raise Undecided("fm quant")
                        ps.append(elem(x.v))
                    return zor(ps) if want else zand(ps)
                parts.append(self.quantify(s.n, el, want))
            else: raise Undecided("quantifier over carried list")
        return zor(parts) if want else zand(parts)

    def pure_formula(self, thunk):
        h0 = self.heap
        outs = self.explore(thunk)
        cases = []
        for o in outs:
            if o.kind != "ok": raise Undecided("impure quantifier body")
            cases.append(zand(o.pc + [o.val]))
        return zor(cases)

    def quantify(self, n, body, exists):
        if isinstance(n, int):
            raise Undecided("concrete span")
        j = self._qvar()
        def th():
            self.assume(z3.And(j >= 0, j < n))
            return self.truth_val(self.to_bool_value(body(j)))
        outs = self.explore(th, push_idx=j)
        cases = []
        for o in outs:
            if o.kind != "ok": raise Undecided("impure quantifier body")
            cases.append(zand(o.pc + [o.val]))
        f = zb(zor(cases))
        rng = z3.And(j >= 0, j < n)
        if exists: return z3.Exists([j], z3.And(rng, f))
        return z3.ForAll([j], z3.Implies(rng, f))

    # comprehensions ----------------------------------------------------------
    def comp(self, gens, i, fid, leaf, tag, cf=None):
        """run nested comprehension clauses; leaf(frame id) per element"""
        if cf is None:
            cf = self.alloc(Frame({"__parent__": fid, "__env__": self.heap[fid].vars["__env__"]})).id
        if i == len(gens):
            leaf(cf)
            return
        g = gens[i]
        it = self.ev(g.iter, cf)
        def body(v):
            self.assign(g.target, v, cf)
            for c in g.ifs:
                if not self.truth(self.ev(c, cf)): return
            self.comp(gens, i + 1, fid, leaf, tag, cf)
        self.run_loop(it, body, (tag, i))

    def e_ListComp(self, e, fid):
        out = self.new_list([])
        def leaf(cf):
            v = self.ev(e.elt, cf)
            r = self.heap[out.id]
            self.heap[out.id] = Lst(r.segs + (Unit(v),))
        self.comp(e.generators, 0, fid, leaf, e)
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fid):
        out = self.alloc(Set_([]))
        def leaf(cf):
            v = self.ev(e.elt, cf)
            r = self.heap[out.id]
            self.heap[out.id] = Set_(r.elems + (self.resolve(v),), r.preds)
        self.comp(e.generators, 0, fid, leaf, e)
        return out

    def e_DictComp(self, e, fid):
        from . import lib
        r = lib.dictcomp(self, e, fid)
        if r is not None: return r
        out = self.alloc(Dct(None, []))
        def leaf(cf):
            k = self.resolve(self.ev(e.key, cf))
            v = self.ev(e.value, cf)
            self.setitem(out, k, v)
        self.comp(e.generators, 0, fid, leaf, e)
        return out

    def e_JoinedStr(self, e, fid):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant): parts.append(p.value)
            else:
                v = self.ev(p.value, fid)
                from . import lib
                if p.format_spec is not None and not (not isinstance(v, SV)):
                    v = SStr(self.fresh("fmt", self.S))
                    parts.append(v); continue
                if p.format_spec is not None:
                    parts.append(format(v, self.ev(p.format_spec, fid))); continue
                if p.conversion == 114: parts.append(repr(v) if not isinstance(v, SV) else SStr(self.fresh("repr", self.S)))
                else: parts.append(lib.to_str(self, v))
        from . import lib
        return lib.concat(self, parts)

    def e_Yield(self, e, fid):
        v = self.ev(e.value, fid) if e.value else None
        out = self.lookup(fid, "__yield__")
        r = self.heap[out.id]
        self.heap[out.id] = Lst(r.segs + (Unit(v),))
        return None

    def e_YieldFrom(self, e, fid):
        v = self.ev(e.value, fid)
        out = self.lookup(fid, "__yield__")
        segs = self.iter_segs(v)
        r = self.heap[out.id]
        self.heap[out.id] = Lst(r.segs + tuple(segs))
        return None

    def e_Starred(self, e, fid): raise Undecided("starred")


class _Super(SV):
    def __init__(self, self_, defcls, cls_of_self): self.self_, self.defcls, self.cls_of_self = self_, defcls, cls_of_self


_MISSING = object()
