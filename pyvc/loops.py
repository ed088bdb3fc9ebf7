"""Exact summaries of loops over symbolic ranges.

One generic iteration k is explored; every location it changes is classified
(append-only list, add-only set, put-only dict, affine counter, recurrence,
iteration-local temporary).  Exits fork into "first exit at k"; completion
assumes every iteration took a non-exit path.  Recurrences get closed forms
(flag, first/last latch, maximum) that are *verified inductively* before use.
"""
import z3
from .values import *
from .tds import *
from .engine import (Engine, Undecided, CarriedRead, PathInfeasible, PoisonRead, PyRaise, _Ret, _Brk, _Cnt, _Done, _QRet,
                     SRec, SSeqV, zand, zor, znot, zb, zi, has_quant)
import enum


def subst(v, k, j):
    """replace index k by term j in a value"""
    if isinstance(v, (SInt, SBool, SStr)):
        return type(v)(z3.substitute(v.t, (k, j)) if z3.is_expr(v.t) else v.t)
    if isinstance(v, SEnum): return SEnum(v.cls, z3.substitute(v.t, (k, j)))
    if isinstance(v, SObj): return SObj(z3.substitute(v.t, (k, j)), v.td)
    if isinstance(v, Opaque): return Opaque(z3.substitute(v.t, (k, j)))
    if isinstance(v, SUnion): return SUnion([(zsub(c, k, j), subst(x, k, j)) for c, x in v.cases])
    if isinstance(v, tuple): return tuple(subst(x, k, j) for x in v)
    if isinstance(v, SRec): return SRec(v.cls, {n: subst(x, k, j) for n, x in v.fields.items()})
    if isinstance(v, SSeqV): return SSeqV(tuple(subst_seg(s, k, j) for s in v.segs))
    if isinstance(v, SList):
        return SList(v.n if isinstance(v.n, int) else z3.substitute(v.n, (k, j)), lambda i, v=v: subst(v.nth(i), k, j))
    if isinstance(v, SMap):
        return SMap(zsub(v.n, k, j), lambda i: z3.substitute(v.key(i), (k, j)), lambda x: zsub(v.has(x), k, j), lambda x: subst(v.get(x), k, j))
    if isinstance(v, Bound): return Bound(subst(v.self_, k, j), v.func)
    if isinstance(v, (SFun, BMeth, Closure, Ref, Poison)):
        return v
    return v


def zsub(c, k, j):
    return z3.substitute(c, (k, j)) if z3.is_expr(c) else c


def subst_seg(s, k, j):
    if isinstance(s, Unit): return Unit(subst(s.v, k, j))
    if isinstance(s, Span): return Span(zsub(s.n, k, j), lambda i, s=s: subst(s.nth(i), k, j), s.key)
    if isinstance(s, FM): return FM(zsub(s.n, k, j), lambda i, s=s: [(zsub(c, k, j), [subst_seg(x, k, j) for x in segs]) for c, segs in s.cases(i)])
    raise Undecided("subst of carried segment")


def freeze(v, heap, since, depth=0):
    """snapshot of objects allocated during the iteration"""
    if depth > 8: raise Undecided("freeze depth")
    if isinstance(v, Ref):
        if v.id <= since: return v
        r = heap[v.id]
        if isinstance(r, Obj): return SRec(r.cls, {n: freeze(x, heap, since, depth + 1) for n, x in r.fields.items()})
        if isinstance(r, Lst): return SSeqV(tuple(freeze_seg(s, heap, since, depth + 1) for s in r.segs))
        raise Undecided("freeze of mutable container")
    if isinstance(v, tuple): return tuple(freeze(x, heap, since, depth + 1) for x in v)
    if isinstance(v, SUnion): return SUnion([(c, freeze(x, heap, since, depth + 1)) for c, x in v.cases])
    if isinstance(v, Bound): return Bound(freeze(v.self_, heap, since, depth + 1), v.func)
    return v


def freeze_seg(s, heap, since, depth=0):
    if isinstance(s, Unit): return Unit(freeze(s.v, heap, since, depth))
    return s


class Shape:
    """uninterpreted representation V(k) of a loop-carried value"""
    def __init__(self, eng, name, idx):
        self.eng, self.name, self.idx = eng, name, list(idx)
        self.cases = []

    def case_of(self, v):
        if v is None: return ("const", None)
        if isinstance(v, (SBool, bool)): return ("bool",)
        if isinstance(v, (SInt, int)): return ("int",)
        if isinstance(v, (SStr, str)): return ("str",)
        if isinstance(v, SEnum): return ("enum", v.cls)
        if isinstance(v, enum.Enum): return ("enum", type(v))
        if isinstance(v, SObj): return ("obj", repr(v.td), v.td)
        if isinstance(v, Opaque): return ("opaque",)
        raise Undecided(f"loop-carried value {v!r}")

    def add(self, v):
        if isinstance(v, SUnion):
            return any([self.add(x) for _, x in v.cases])
        c = self.case_of(v)
        for d in self.cases:
            if d[:2] == c[:2]: return False
        self.cases.append(c)
        return True

    def _f(self, suffix, k, sort):
        return self.eng.app(f"{self.name}{suffix}", tuple(self.idx) + (zi(k),), sort)

    def payload(self, i, k):
        c = self.cases[i]
        if c[0] == "const": return c[1]
        if c[0] == "bool": return SBool(self._f(f".b", k, B))
        if c[0] == "int": return SInt(self._f(f".i", k, I))
        if c[0] == "str": return SStr(self._f(f".s", k, self.eng.S))
        if c[0] == "enum": return SEnum(c[1], self._f(f".e{i}", k, I))
        if c[0] == "obj": return SObj(self._f(f".o{i}", k, U), c[2])
        if c[0] == "opaque": return Opaque(self._f(f".q", k, U))

    def tag(self, k): return self._f(".tag", k, I)

    def at(self, k):
        if len(self.cases) == 1: return self.payload(0, k)
        return SUnion([(self.tag(k) == i, self.payload(i, k)) for i in range(len(self.cases))])

    def wf(self, k):
        out = []
        if len(self.cases) > 1: out.append(z3.And(self.tag(k) >= 0, self.tag(k) < len(self.cases)))
        for i, c in enumerate(self.cases):
            if c[0] == "enum":
                t = self.payload(i, k).t
                out.append(z3.And(t >= 0, t < len(list(c[1]))))
        return zand(out)

    def equals(self, k, v):
        """V(k) is the value v"""
        if isinstance(v, SUnion):
            return zand([z3.Implies(zb(c), zb(self.equals(k, x))) for c, x in v.cases])
        c = self.case_of(v)
        i = [n for n, d in enumerate(self.cases) if d[:2] == c[:2]][0]
        out = []
        if len(self.cases) > 1: out.append(self.tag(k) == i)
        p = self.payload(i, k)
        if c[0] == "const": pass
        elif c[0] in ("obj", "opaque"): out.append(p.t == v.t)
        else: out.append(self.eng.eq(p, v))
        return zand(out)


class LRec:
    """a list changed freely by a loop: length L(k) and elements E(k, i) before iteration k"""
    def __init__(self, eng, name, idx0):
        self.eng, self.name, self.idx0 = eng, name, list(idx0)
        self.cases = []

    def len(self, k): return self.eng.app(self.name + ".len", tuple(self.idx0) + (zi(k),), I)

    def shape(self, k):
        s = Shape(self.eng, self.name + ".el", self.idx0 + [zi(k)])
        s.cases = self.cases
        return s

    def add(self, segs):
        out = False
        for sg in segs:
            if isinstance(sg, Unit): out = self.shape(0).add(sg.v) or out
            elif isinstance(sg, Span): out = self.shape(0).add(sg.nth(z3.Int("lrec!i"))) or out
            else: raise Undecided("list modified in loop")
        if len(self.cases) > 1 or any(c[0] == "enum" for c in self.cases): raise Undecided("mixed elements of a list modified in loop")
        return out

    def seg(self, k): return Span(self.len(k), lambda i: self.shape(k).at(i))

    def parts(self, k, segs):
        """the list before iteration k is the given one: (length formula, element formula of i)"""
        off, conds = z3.IntVal(0), []
        for sg in segs:
            m = zi(1) if isinstance(sg, Unit) else zi(sg.n)
            conds.append((off, m, sg))
            off = off + m
        def at(i):
            fs = []
            sh = self.shape(k)
            for o, m, sg in conds:
                v = sg.v if isinstance(sg, Unit) else sg.nth(z3.simplify(i - o))
                fs.append(z3.Implies(z3.And(i >= o, i < o + m), zb(sh.equals(i, v))))
            return zand(fs)
        return self.len(k) == z3.simplify(off), at

    def equals(self, k, segs, tag):
        l, at = self.parts(k, segs)
        i = z3.Int(f"li!{tag}")
        return zand([l] + ([z3.ForAll([i], zb(at(i)))] if segs else []))


class C:
    """classification of a changed location"""
    def __init__(self, kind): self.kind = kind


def summarize(eng, n, iterate, tag):
    """n: z3 Int number of iterations or None for while loops.
    iterate(k) runs iteration k (may raise control exceptions)."""
    ck = ("loop", id(tag) if not isinstance(tag, tuple) else tuple(id(t) if not isinstance(t, (int, str)) else t for t in tag), eng.path_key())
    base_heap = dict(eng.heap)
    since = eng.counter
    carried = {}
    eng.counter += 1
    k = z3.Int(f"k!{eng.counter}")
    lid = eng.counter
    idx0 = list(eng.idx)
    outs = None
    for rnd in range(16):
        def th():
            eng.assume(k >= 0)
            if n is not None: eng.assume(k < n)
            install(eng, carried, k, base_heap)
            th.start = dict(eng.heap)
            iterate(k)
            return None
        starts = []
        def th2():
            try:
                return th()
            finally:
                starts.append(None)
        try:
            outs = eng.explore(th, push_idx=k)
        except PoisonRead as p:
            c = carried.get(p.loc)
            if c is None or c.kind not in ("temp", "rec0"):
                raise
            if c.kind == "temp" and c.undef: raise Undecided(f"loop temporary {p.loc} read before write")
            carried[p.loc] = new_rec(eng, p.loc, base_heap, lid, idx0)
            continue
        except CarriedRead as p:
            mine = [l for l in p.locs if l in carried and carried[l].kind == "append"]
            if not mine: raise
            for l in mine: carried[l] = new_lrec(eng, l, base_heap, lid, idx0)
            continue
        if not classify(eng, outs, carried, base_heap, k, lid, idx0):
            break
    else:
        raise Undecided("loop classification does not converge")
    for loc, c in carried.items():
        if c.kind == "lrec": outs = match_lrec(eng, loc, c, carried, base_heap, iterate, n, k, lid, idx0, outs)
    normal = [o for o in outs if o.kind == "ok"]
    exits = [o for o in outs if o.kind != "ok"]

    def at_pc(o, j):
        return zand([zsub(c, k, j) for c in o.pc])

    def nonexit(j):
        return zor([zand([at_pc(o, j)] + rec_next(o, j)) for o in normal])

    recs = [(loc, c) for loc, c in carried.items() if c.kind == "rec"]

    def rec_next(o, j):
        out = []
        for loc, c in recs:
            v = value_at(o.heap, loc)
            out.append(c.shape.equals(j + 1, subst(v, k, j)))
        return out

    for loc, c in list(recs):
        if [x[0] for x in c.shape.cases] == ["str"] and strcat_ok(eng, c, [value_at(o.heap, loc) for o in normal], k):
            c.kind = "strcat"
            recs.remove((loc, c))
            c.per = [(o, value_at(o.heap, loc)) for o in normal]

    def strcat_at(c, at):
        from . import lib
        def cases(j):
            out = []
            for o, v in c.per:
                parts = lib.cat_parts(eng, v)[1:]
                out.append((at_pc(o, j), [subst(p, k, j) if not isinstance(p, str) else p for p in parts]))
            return out
        f = canon_fold(eng, at, cases)
        return lib.concat(eng, [c.init, f])

    # ----- closed forms for recurrences, verified inductively
    for loc, c in recs:
        c.tmpl = infer_template(eng, loc, c, recs, carried, base_heap, iterate, n, k, normal, at_pc, lid, idx0)

    def facts(upto):
        """everything known when iterations 0..upto-1 did not exit"""
        f = []
        j = z3.Int(f"j!{lid}")
        if normal:
            body = nonexit(j)
            if body is not True:
                f.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < upto), zb(body))))
        else:
            f.append(upto == 0)
        for loc, c in recs:
            f.append(c.shape.equals(z3.IntVal(0), c.init))
            wf = c.shape.wf(j)
            if wf is not True:
                f.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= upto), wf)))
                f.append(c.shape.wf(upto))
            for t in c.tmpl:
                f.append(t(upto))
                f.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= upto), t(j))))
        for loc, c in carried.items():
            if c.kind == "lrec" and not c.matched:
                f.append(c.lr.equals(z3.IntVal(0), base_heap[loc[1]].segs, f"{lid}!0"))
                f.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= upto), c.lr.len(j) >= 0)))
                f.append(c.lr.len(upto) >= 0)
                for o in normal:
                    f.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < upto, zb(at_pc(o, j))), c.lr.equals(j + 1, [subst_seg(s, k, j) for s in freeze_segs(o.heap[loc[1]].segs, o.heap, since)], lid))))
                eng.lrecs.append((c.lr, f[-1] if normal else f[0], lambda x, segs=[(o, freeze_segs(o.heap[loc[1]].segs, o.heap, since)) for o in normal]: [(at_pc(o, x), [subst_seg(s, k, x) for s in sg]) for o, sg in segs]))
            if c.kind == "setadd":
                f.extend(set_axioms(eng, loc, c, normal, k, upto, at_pc, lid))
        return f

    def materialize(heap, at):
        """replace placeholders by the state after `at` iterations"""
        for loc, c in carried.items():
            if c.kind == "append":
                oid = loc[1]
                r = heap[oid]
                pre = list(base_heap[oid].segs)
                fm = append_segs(eng, loc, normal, k, at, at_pc, since)
                segs = list(r.segs)
                assert isinstance(segs[0], CarriedSeg)
                heap[oid] = Lst(pre + fm + segs[1:])
            elif c.kind == "strcat":
                put_at(heap, loc, fix_str(eng, value_at(heap, loc), c, k, strcat_at(c, at)))
            elif c.kind == "dictput":
                oid = loc[1]
                r = heap[oid]
                b = base_heap[oid]
                puts = list(r.puts)
                if any(grouped(o.heap, p[1]) for o in outs if oid in o.heap for p in o.heap[oid].puts[1:] if isinstance(p, tuple)):
                    if b.base is not None or b.puts or puts[1:]: raise Undecided("grouping into a dict with other entries")
                    heap[oid] = Dct(None, [group_fold(eng, at, oid, normal, k, at_pc, since)], b.default)
                    continue
                if any(type(p[0]).__name__ == "_Del" for o in normal for p in o.heap[oid].puts[1:] if isinstance(p, tuple)): raise Undecided("deletion from a dict in a loop")
                heap[oid] = Dct(b.base, list(b.puts) + [FoldPuts(at, lambda j, oid=oid: [(at_pc(o, j), [subst_put(p, k, j, o, since) for p in o.heap[oid].puts[1:]]) for o in normal], common_key(oid, normal, k, since))] + puts[1:], b.default)

    # ----- fork
    if not exits:
        options = [("normal", None)]
    elif n is None:
        options = [("exit", o) for o in exits]
    else:
        options = [("normal", None)] + [("exit", o) for o in exits]
    if len(options) == 1:
        pick = 0
    else:
        conds = []
        for kind, o in options:
            if kind == "normal": conds.append(z3.BoolVal(True) if normal else n <= 0)
            else:
                qf = [c for c in o.pc if not has_quant(c)]
                conds.append(zb(zand(qf)))
        pick = eng.decide(conds)
    kind, o = options[pick]
    if kind == "normal":
        if n is None: raise Undecided("while loop without exit")
        eng.assume(n >= 0)
        if not normal: eng.assume(n == 0)
        for f in facts(n): eng.assume(f)
        eng.heap = dict(base_heap)
        final_state(eng, carried, base_heap, n)
        materialize(eng.heap, n)
        if not normal: eng.heap = dict(base_heap)
        return
    # exit at iteration k
    eng.assume(k >= 0)
    for c in o.pc: eng.assume(c)
    for f in facts(k): eng.assume(f)
    eng.heap = dict(o.heap)
    materialize(eng.heap, k)
    if o.kind == "raise": raise PyRaise(o.val)
    if o.kind == "ret": raise _Ret(o.val)
    if o.kind == "qret": raise _QRet(o.val)
    if o.kind == "brk": raise _Brk()
    if o.kind == "done": return
    raise Undecided(o.kind)


def freeze_segs(segs, heap, since): return [freeze_seg(s, heap, since) for s in segs]


def new_lrec(eng, loc, base_heap, lid, idx0):
    c = C("lrec")
    c.lr = LRec(eng, f"lrec!{lid}!{loc[1]}", idx0)
    c.lr.add(base_heap[loc[1]].segs)
    c.matched = False
    c.own = True
    return c


def match_lrec(eng, loc, c, carried, base_heap, iterate, n, k, lid, idx0, outs):
    """is the list at every iteration that of an earlier loop?  (checked inductively)"""
    from . import smt
    own = c.lr
    init = base_heap[loc[1]].segs
    for lr, tok, step in reversed(eng.lrecs):
        if not any(z3.is_expr(p) and p.eq(tok) for p in eng.pc): continue
        if [str(x) for x in lr.idx0] != [str(x) for x in idx0] or [x[:2] for x in lr.cases] != [x[:2] for x in own.cases]: continue
        if smt.check_valid(eng, eng.pc, zb(lr.equals(z3.IntVal(0), init, f"{lid}!m")), 4000) != "valid": continue
        c.lr = lr
        def th():
            eng.assume(k >= 0)
            if n is not None: eng.assume(k < n)
            install(eng, carried, k, base_heap)
            iterate(k)
        try: new = eng.explore(th, push_idx=k)
        except (PoisonRead, Undecided): new = None
        ok = new is not None
        i = z3.Int(f"lm!{lid}")
        for o in (new or []):
            if not ok: break
            if o.kind != "ok": continue
            facts = ground_at(list(eng.pc), k) + list(o.pc) + [i >= 0, lr.len(k) >= 0]
            for pc, segs in step(k):
                l, at = lr.parts(k + 1, segs)
                facts.append(z3.Implies(zb(pc), z3.And(l, zb(at(i)))))
            l, at = lr.parts(k + 1, o.heap[loc[1]].segs)
            if smt.check_valid(eng, facts, z3.And(l, zb(at(i))), 4000) != "valid": ok = False
        if ok:
            eng.obligations.append(("loop-invariant", f"list {loc[1]}", "valid"))
            c.matched = True
            return new
        c.lr = own
    return outs


class FoldPuts:
    """key: the key every iteration puts, where it is the same on all its paths"""
    def __init__(self, n, cases, key=None): self.n, self.cases, self.key = n, cases, key

    def keys(self, j):
        if self.key is not None: return [(True, self.key(j))]
        return [(c, kk) for c, ps in self.cases(j) for kk, _ in ps]


def common_key(oid, normal, k, since):
    ks = []
    for o in normal:
        ps = o.heap[oid].puts[1:]
        if len(ps) != 1 or not isinstance(ps[0], tuple) or isinstance(ps[0][0], (str, int)): return None
        ks.append(freeze(ps[0][0], o.heap, since))
    if not ks or not all(same_val(x, ks[0]) for x in ks): return None
    return lambda j: subst(ks[0], k, j)


class FoldGroup:
    """lists collected under keys: iteration j adds segments to the list of its key; cases(j) -> [(cond, [(key, segs)])]"""
    def __init__(self, n, cases, touched=False): self.n, self._cases, self.touched = n, cases, touched
    @property
    def cases(self):
        """touched: looked up by a loop, which may have added empty lists under further keys"""
        if self.touched: raise Undecided("use of a dict of collected lists")
        return self._cases
    def __getitem__(self, i): raise Undecided("use of a dict of collected lists")

    def keys(self, j): return [(c, kk) for c, ps in self.cases(j) for kk, _ in ps]

    def under(self, eng, key):
        """what is kept under key"""
        def cases(j):
            out = []
            for c, ps in self._cases(j):
                if not ps: out.append((c, []))
                else:
                    q = eng.eq(ps[0][0], key)
                    out.append((zand([c, q]), list(ps[0][1])))
                    out.append((zand([c, znot(q)]), []))
            return out
        return FM(self.n, cases)


def grouped(heap, v):
    r = heap.get(v.id) if isinstance(v, Ref) else None
    return isinstance(r, Lst) and bool(r.segs) and isinstance(r.segs[0], GroupSeg)


def group_fold(eng, at, oid, normal, k, at_pc, since):
    per = []
    for o in normal:
        ps = o.heap[oid].puts[1:]
        if len(ps) > 1 or not all(isinstance(p, tuple) and grouped(o.heap, p[1]) for p in ps): raise Undecided("dict of lists changed otherwise in loop")
        segs = [[freeze_seg(s, o.heap, since) for s in o.heap[p[1].id].segs[1:]] for p in ps]
        if any(isinstance(s, CarriedSeg) for ss in segs for s in ss): raise Undecided("dict of lists changed otherwise in loop")
        per.append((o, [(freeze(p[0], o.heap, since), ss) for p, ss in zip(ps, segs)]))
    def cases(j): return [(at_pc(o, j), [(subst(kk, k, j), [subst_seg(s, k, j) for s in ss]) for kk, ss in ps]) for o, ps in per]
    return FoldGroup(at, cases)


def subst_put(p, k, j, o, since):
    return (subst(freeze(p[0], o.heap, since), k, j), subst(freeze(p[1], o.heap, since), k, j))


def value_at(heap, loc):
    r = heap[loc[1]]
    if loc[0] == "var": return r.vars[loc[2]]
    if loc[0] == "field": return r.fields[loc[2]]
    raise Undecided("value_at")


def put_at(heap, loc, v):
    r = heap[loc[1]]
    if loc[0] == "var":
        d = dict(r.vars); d[loc[2]] = v
        heap[loc[1]] = Frame(d)
    else:
        d = dict(r.fields); d[loc[2]] = v
        heap[loc[1]] = Obj(r.cls, d, r.sym)


def install(eng, carried, k, base_heap):
    for loc, c in carried.items():
        if c.kind == "append": eng.heap[loc[1]] = Lst((CarriedSeg(loc),))
        elif c.kind == "lrec":
            eng.assume(c.lr.len(k) >= 0)
            eng.heap[loc[1]] = Lst((c.lr.seg(k),) if c.lr.cases else ())
        elif c.kind == "setadd":
            b = base_heap[loc[1]]
            eng.heap[loc[1]] = Set_(b.elems, b.preds + ((lambda v, c=c: c.seen(k, v)),))
        elif c.kind == "dictput":
            eng.heap[loc[1]] = Dct(CarriedMap(loc), (CarriedSeg(loc),), base_heap[loc[1]].default)
        elif c.kind == "touched": touch(eng, loc, c, base_heap)
        elif c.kind == "temp": put_at(eng.heap, loc, Poison(loc))
        elif c.kind == "affine": put_at(eng.heap, loc, eng.mkint(eng.it(c.init) + c.step * k))
        elif c.kind == "rec":
            eng.assume(c.shape.wf(k))
            put_at(eng.heap, loc, c.shape.at(k))


def touch(eng, loc, c, base_heap):
    b = base_heap[loc[1]]
    p, = b.puts
    if not hasattr(c, "puts"): c.puts = (FoldGroup(p.n, p._cases, True),)
    eng.heap[loc[1]] = Dct(None, c.puts, b.default)


class CarriedMap:
    def __init__(self, loc): self.loc = loc
    @property
    def n(self): raise Undecided("reads accumulating dict")
    def has(self, k): raise Undecided("reads accumulating dict")
    get = key = has


def final_state(eng, carried, base_heap, n):
    for loc, c in carried.items():
        if c.kind == "append": eng.heap[loc[1]] = Lst((CarriedSeg(loc),))
        elif c.kind == "lrec": eng.heap[loc[1]] = Lst((c.lr.seg(n),))
        elif c.kind == "dictput": eng.heap[loc[1]] = Dct(base_heap[loc[1]].base, (CarriedSeg(loc),), base_heap[loc[1]].default)
        elif c.kind == "setadd":
            b = base_heap[loc[1]]
            eng.heap[loc[1]] = Set_(b.elems, b.preds + ((lambda v, c=c: c.seen(n, v)),))
        elif c.kind == "touched": touch(eng, loc, c, base_heap)
        elif c.kind == "temp": put_at(eng.heap, loc, Poison(("after",) + loc))
        elif c.kind == "affine": put_at(eng.heap, loc, eng.mkint(eng.it(c.init) + c.step * n))
        elif c.kind == "strcat": put_at(eng.heap, loc, SStr(c.shape.at(n).t))
        elif c.kind == "rec": put_at(eng.heap, loc, c.shape.at(n))


def strcat_ok(eng, c, vals, k):
    """every iteration appends to the string and does not otherwise read it"""
    from . import lib
    t = c.shape.at(k).t
    for v in vals:
        if not isinstance(v, SStr): return False
        parts = lib.cat_parts(eng, v)
        if not parts or not isinstance(parts[0], SStr) or not parts[0].t.eq(t): return False
        for p in parts[1:]:
            if isinstance(p, SStr) and occurs(t, p.t): return False
    return True


def occurs(t, e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.eq(t): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id()); todo.extend(x.children())
    return False


def fix_str(eng, v, c, k, now):
    """replace the carried string by its value"""
    from . import lib
    parts = lib.cat_parts(eng, v)
    return lib.concat(eng, [now] + [p for p in parts[1:]])


def canon_fold(eng, n, cases):
    """the string concatenation of cases(0), ..., cases(n-1) as a canonical term"""
    from . import lib
    j = z3.Int("fold!j")
    cs = [(c, [p for p in parts]) for c, parts in cases(j)]
    cs = [(c, ps) for c, ps in cs if c is not False]
    if all(not ps for _, ps in cs): return ""
    def tx(x): return x.sexpr() if z3.is_expr(x) else repr(x)
    texts = {tuple(repr(p) if isinstance(p, str) else p.t.sexpr() for p in ps) for _, ps in cs}
    if len(texts) == 1: key = (tx(zi(n)), tuple(texts))
    else: key = (tx(zi(n)), tuple(sorted((tx(z3.simplify(zb(c))), tuple(repr(p) if isinstance(p, str) else p.t.sexpr() for p in ps)) for c, ps in cs)))
    key = (key, tuple(tx(i) for i in eng.idx))
    ids = eng.foldkeys
    if key not in ids: ids[key] = len(ids)
    return SStr(eng.app(f"fold!{ids[key]}", tuple(eng.idx), eng.S))


def new_rec(eng, loc, base_heap, lid, idx0):
    c = C("rec")
    c.init = value_at(base_heap, loc)
    if isinstance(c.init, Poison): raise PoisonRead(c.init.loc)
    c.shape = Shape(eng, f"rec!{lid}!{loc[0]}!{loc[1] if loc[0]=='field' else ''}{loc[2]}", idx0)
    c.shape.add(c.init)
    c.tmpl = []
    return c


def classify(eng, outs, carried, base_heap, k, lid, idx0):
    """returns True if the classification changed (another round is needed)"""
    changed = False
    start = dict(base_heap)
    class _E: pass
    e = _E(); e.heap = start
    # start state as installed
    sv_heap, sv_pc = eng.heap, eng.pc
    eng.heap, eng.pc = start, list(eng.pc)
    install(eng, carried, k, base_heap)
    start = eng.heap
    eng.heap, eng.pc = sv_heap, sv_pc
    normal = [o for o in outs if o.kind == "ok"]
    locs = {}
    for o in normal:
        for i, r0 in base_heap.items():
            r1 = o.heap.get(i)
            rs = start[i]
            if isinstance(r0, Frame):
                for nm in set(r1.vars) | set(rs.vars):
                    a, b = rs.vars.get(nm, _U), r1.vars.get(nm, _U)
                    if not same(a, b) and nm not in ("__exc__",):
                        locs.setdefault(("var", i, nm), True)
            elif isinstance(r0, Obj):
                for nm in set(r1.fields) | set(rs.fields):
                    a, b = rs.fields.get(nm, _U), r1.fields.get(nm, _U)
                    if not same(a, b): locs.setdefault(("field", i, nm), True)
            elif isinstance(r0, Lst):
                if len(r1.segs) != len(rs.segs) or any(not same_seg(x, y) for x, y in zip(r1.segs, rs.segs)): locs.setdefault(("list", i), True)
            elif isinstance(r0, Set_):
                if r1.elems != rs.elems: locs.setdefault(("set", i), True)
            elif isinstance(r0, Dct):
                if r1.puts != rs.puts: locs.setdefault(("dict", i), True)
    for loc in locs:
        i = loc[1]
        if loc[0] == "list":
            if loc in carried and carried[loc].kind == "lrec":
                for o in normal:
                    if carried[loc].lr.add(o.heap[i].segs): changed = True
                continue
            if loc in carried: 
                for o in normal:
                    if not isinstance(o.heap[i].segs[0] if o.heap[i].segs else None, CarriedSeg): raise Undecided("list not append-only in loop")
                continue
            for o in normal:
                a, b = base_heap[i].segs, o.heap[i].segs
                if len(b) < len(a) or any(not same_seg(x, y) for x, y in zip(a, b)):
                    carried[loc] = new_lrec(eng, loc, base_heap, lid, idx0); changed = True
                    for q in normal: carried[loc].lr.add(q.heap[i].segs)
                    break
            if loc not in carried:
                carried[loc] = C("append"); changed = True
        elif loc[0] == "set":
            if loc in carried: continue
            for o in normal:
                a, b = base_heap[i].elems, o.heap[i].elems
                if b[:len(a)] != a: raise Undecided("set modified in loop")
            c = C("setadd")
            c.nbase = len(base_heap[i].elems)
            c.uf = {}
            def seen(kk, v, c=c, i=i):
                v = eng.resolve(v)
                t = term_of(eng, v)
                nm = f"seen!{lid}!{i}!{t.sort()}"
                c.uf[str(t.sort())] = (nm, t.sort())
                return eng.app(nm, tuple(idx0) + (zi(kk), t), B)
            c.seen = seen
            carried[loc] = c; changed = True
        elif loc[0] == "dict":
            if loc in carried:
                if carried[loc].kind == "touched": raise Undecided("dict of collected lists changed in loop")
                continue
            b = base_heap[i]
            if b.base is None and len(b.puts) == 1 and isinstance(b.puts[0], FoldGroup):
                carried[loc] = C("touched"); changed = True
                continue
            for o in normal:
                a, b = base_heap[i].puts, o.heap[i].puts
                if b[:len(a)] != a: raise Undecided("dict modified in loop")
            carried[loc] = C("dictput"); changed = True
        else:
            c = carried.get(loc)
            undef = (loc[2] not in (base_heap[i].vars if loc[0] == "var" else base_heap[i].fields))
            if c is None:
                if undef:
                    c = C("temp"); c.undef = True
                    # need a slot for the placeholder
                    if loc[0] == "var":
                        d = dict(base_heap[i].vars); d[loc[2]] = Poison(loc); base_heap[i] = Frame(d)
                    else: raise Undecided("new object field created in loop")
                    carried[loc] = c; changed = True
                    continue
                init = value_at(base_heap, loc)
                if isinstance(init, Poison):
                    c = C("temp"); c.undef = True
                    carried[loc] = c; changed = True
                    continue
                c = C("temp"); c.undef = False
                carried[loc] = c; changed = True
            elif c.kind == "temp":
                if not all(not isinstance(value_at(o.heap, loc), Poison) for o in normal):
                    if c.undef: continue
                    aff = None
                    carried[loc] = new_rec(eng, loc, base_heap, lid, idx0); changed = True
            elif c.kind == "affine":
                for o in normal:
                    d = z3.simplify(eng.it(value_at(o.heap, loc)) - eng.it(value_at(start, loc)))
                    if not z3.is_int_value(d) or d.as_long() != c.step: raise Undecided("affine")
            elif c.kind == "rec":
                ints = all(isinstance(value_at(o.heap, loc), (SInt, int)) and not isinstance(value_at(o.heap, loc), bool) for o in normal) and isinstance(c.init, (SInt, int)) and not isinstance(c.init, bool)
                if ints and c.shape.cases == [("int",)]:
                    ds = {str(z3.simplify(eng.it(value_at(o.heap, loc)) - eng.it(value_at(start, loc)))) for o in normal}
                    d0 = z3.simplify(eng.it(value_at(normal[0].heap, loc)) - eng.it(value_at(start, loc)))
                    if len(ds) == 1 and z3.is_int_value(d0):
                        a = C("affine"); a.init, a.step = c.init, d0.as_long()
                        carried[loc] = a; changed = True
                        continue
                for o in normal:
                    if c.shape.add(value_at(o.heap, loc)): changed = True
    # temps untouched on some path of this round
    for loc, c in list(carried.items()):
        if c.kind == "temp" and not c.undef and loc not in locs:
            pass
        if c.kind == "temp" and not c.undef:
            if normal and any(isinstance(value_at(o.heap, loc), Poison) for o in normal):
                carried[loc] = new_rec(eng, loc, base_heap, lid, idx0); changed = True
    return changed


_U = object()


def same(a, b):
    if a is b: return True
    if isinstance(a, Ref) and isinstance(b, Ref): return a.id == b.id
    if type(a) is not type(b): return False
    if isinstance(a, (SInt, SBool, SStr, SObj, Opaque)) and z3.is_expr(a.t) and z3.is_expr(b.t): return a.t.eq(b.t)
    if isinstance(a, SEnum): return a.cls is b.cls and a.t.eq(b.t)
    if isinstance(a, SUnion):
        return len(a.cases) == len(b.cases) and all((c1 is c2 or (z3.is_expr(c1) and z3.is_expr(c2) and c1.eq(c2))) and same(x, y) for (c1, x), (c2, y) in zip(a.cases, b.cases))
    if isinstance(a, (int, str, bool, float)): return a == b
    if isinstance(a, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Poison): return a.loc == b.loc
    return False


def same_seg(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, CarriedSeg): return a.loc == b.loc
    return False


def term_of(eng, v):
    if isinstance(v, (SStr, str)): return eng.st(v)
    if isinstance(v, (SInt, SBool, int)): return eng.it(v)
    if isinstance(v, SEnum): return v.t
    if isinstance(v, enum.Enum): return z3.IntVal(list(type(v)).index(v))
    if isinstance(v, (SObj, Opaque)): return v.t
    raise Undecided(f"set element {v!r}")


def merged_pc(eng, os, normal, k):
    """the disjunction of the path conditions of os, simplified under the
    assumption that one of the normal paths is taken"""
    full = zor([zand(list(o.pc)) for o in os])
    if len(os) < 2: return full
    if len(os) == len(normal): pass
    common = [p for p in os[0].pc if z3.is_expr(p) and all(any(z3.is_expr(q) and q.eq(p) for q in o.pc) for o in os[1:])]
    cand = zand(common)
    sv = z3.Solver()
    sv.set("timeout", 500)
    for o in normal:
        if any(z3.is_expr(p) and has_quant(p) for p in o.pc): return full
    sv.add(zb(zor([zand(list(o.pc)) for o in normal])), zb(cand), z3.Not(zb(full)))
    return cand if sv.check() == z3.unsat else full


def set_axioms(eng, loc, c, normal, k, upto, at_pc, lid):
    out = []
    oid = loc[1]
    for o in normal:
        for e in o.heap[oid].elems[c.nbase:]:
            sort = term_of(eng, e).sort()
            c.uf[str(sort)] = (f"seen!{lid}!{oid}!{sort}", sort)
    for nm, sort in list(c.uf.values()):
        v = z3.Const(f"v!{lid}", sort)
        m, j = z3.Int(f"m!{lid}"), z3.Int(f"i!{lid}")
        groups = []
        for o in normal:
            for e in o.heap[oid].elems[c.nbase:]:
                t = term_of(eng, e)
                if t.sort() != sort: continue
                for g in groups:
                    if g[0].eq(t):
                        g[1].append(o)
                        break
                else: groups.append((t, [o]))
        alts = [zand([zsub(merged_pc(eng, os, normal, k), k, j), zsub(t, k, j) == v]) for t, os in groups]
        seen = lambda mm: eng.app(nm, tuple(eng.idx) + (zi(mm), v), B)
        body = z3.Exists([j], z3.And(j >= 0, j < m, zb(zor(alts))))
        out.append(z3.ForAll([m, v], z3.Implies(z3.And(m >= 0, m <= upto), seen(m) == body), patterns=[seen(m)]))
    return out


def append_segs(eng, loc, normal, k, at, at_pc, since):
    oid = loc[1]
    per = []
    for o in normal:
        segs = o.heap[oid].segs
        assert isinstance(segs[0], CarriedSeg)
        per.append((o, [freeze_seg(s, o.heap, since) for s in segs[1:]]))
    if all(not s for _, s in per): return []
    if len(per) == 1 and len(per[0][1]) == 1 and isinstance(per[0][1][0], Unit):
        u = per[0][1][0]
        return [Span(at, lambda j, u=u: subst(u.v, k, j))]
    # paths that append the same belong together
    groups = []
    for o, segs in per:
        for g in groups:
            if len(g[1]) == len(segs) and all(isinstance(x, Unit) and isinstance(y, Unit) and same_val(x.v, y.v) for x, y in zip(g[1], segs)):
                g[0].append(o)
                break
        else: groups.append(([o], segs))
    if len(groups) == len(per):
        def cases(j):
            return [(at_pc(o, j), [subst_seg(s, k, j) for s in segs]) for o, segs in per]
    else:
        gs = [(merged_pc(eng, os, normal, k), segs) for os, segs in groups]
        if len(gs) == 1 and len(gs[0][1]) == 1 and isinstance(gs[0][1][0], Unit):
            u = gs[0][1][0]
            return [Span(at, lambda j, u=u: subst(u.v, k, j))]
        def cases(j):
            return [(zsub(c, k, j), [subst_seg(s, k, j) for s in segs]) for c, segs in gs]
    return [FM(at, cases)]


def same_val(a, b):
    if isinstance(a, SRec) and isinstance(b, SRec):
        return a.cls is b.cls and set(a.fields) == set(b.fields) and all(same_val(a.fields[n], b.fields[n]) for n in a.fields)
    if isinstance(a, SSeqV) and isinstance(b, SSeqV):
        return len(a.segs) == len(b.segs) and all(isinstance(x, Unit) and isinstance(y, Unit) and same_val(x.v, y.v) for x, y in zip(a.segs, b.segs))
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    return same(a, b)


# ------------------------------------------------------- closed forms --------
def ground_at(facts, k):
    """the facts without quantifiers, and universal ones over one index instantiated at k"""
    out = []
    for f in facts:
        if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == I:
            f = z3.substitute_vars(f.body(), k)
        if not has_quant(f): out.append(f)
    return out


def exclusive(a, b):
    """two paths that cannot both be taken: a condition of one is the negation of one of the other"""
    return any(z3.is_not(x) and x.arg(0).eq(y) or z3.is_not(y) and y.arg(0).eq(x) for x in a if z3.is_expr(x) for y in b if z3.is_expr(y))


def infer_template(eng, loc, c, recs, carried, base_heap, iterate, n, k, normal, at_pc, lid, idx0):
    """candidate closed forms for V(k); each kept only if proved inductive.
    Returns list of functions index -> formula about c.shape at that index."""
    # re-run the body with this variable at its initial value
    def th():
        eng.assume(k >= 0)
        if n is not None: eng.assume(k < n)
        install(eng, carried, k, base_heap)
        put_at(eng.heap, loc, c.init)
        iterate(k)
    try:
        outs_ = list(eng.explore(th, push_idx=k))
        outs0 = [o for o in outs_ if o.kind == "ok"]
    except (PoisonRead, Undecided):
        return []
    vals0 = [(o, value_at(o.heap, loc)) for o in outs0]
    cands = []
    sh = c.shape
    j, w = z3.Int(f"tj!{lid}"), z3.Int(f"tw!{lid}")
    # facts about what the iteration itself introduced (inner loops) hold for every
    # iteration that takes the path; the candidates then only refer to the path taken
    guards = {id(o): [z for z in o.pc if not has_quant(z)] for o in outs_}
    split = any(len(guards[id(o)]) < len(o.pc) for o in outs0) and \
        all(exclusive(guards[id(a)], guards[id(b)]) for x, a in enumerate(outs_) for b in outs_[:x])
    if not split: guards = {id(o): o.pc for o in outs_}
    def pc0(o, x): return zand([zsub(z, k, x) for z in guards[id(o)]])
    def total(x):
        return zb(zand([zor([pc0(o, x) for o in outs_])] + [z3.Implies(zb(pc0(o, x)), zb(zand([zsub(z, k, x) for z in o.pc if has_quant(z)]))) for o in outs0]))
    from .engine import PyRaise
    kinds = [x[0] for x in sh.cases]
    import enum as _en
    if kinds == ["bool"]:
        # flag: becomes (not init) at some iteration
        init = eng.truth_val(c.init)
        def flag(m, v=_U):
            b = eng.truth_val(sh.at(m) if v is _U else v)
            cond = zor([zand([pc0(o, j), zb(eng.truth_val(subst(x, k, j))) != zb(init)]) for o, x in vals0])
            ex = z3.Exists([j], z3.And(j >= 0, j < m, zb(cond)))
            return zb(b) == z3.If(ex, z3.Not(zb(init)), zb(init))
        cands.append(flag)
        def last(m, v=_U):
            b = eng.truth_val(sh.at(m) if v is _U else v)
            cond = zor([zand([pc0(o, m - 1), zb(eng.truth_val(subst(x, k, m - 1)))]) for o, x in vals0])
            return z3.If(zi(m) <= 0, zb(b) == zb(init), z3.Implies(zi(m) > 0, zb(b) == zb(cond)))
    if "enum" in kinds and len(kinds) == 1 or kinds == ["int"]:
        ecls = sh.cases[0][1] if kinds == ["enum"] else None
        def num(v):
            if ecls is None: return eng.it(v)
            if isinstance(v, SUnion):
                r = None
                for cc, x in v.cases:
                    r = num(x) if r is None else z3.If(zb(cc), num(x), r)
                return r
            return v.t if isinstance(v, SEnum) else z3.IntVal(list(ecls).index(v))
        if ecls is not None:
            m_ = len(list(ecls))
            def mx(m, v=_U):
                b = num(sh.at(m) if v is _U else v)
                fs = []
                for lv in range(1, m_):
                    cond = zor([zand([pc0(o, j), num(subst(x, k, j)) >= lv]) for o, x in vals0])
                    ex = z3.Exists([j], z3.And(j >= 0, j < m, zb(cond)))
                    fs.append((b >= lv) == z3.Or(num(c.init) >= lv, ex))
                return z3.And(*fs)
            cands.append(mx)
    sums = {}
    if kinds == ["int"]:
        v0 = sh.at(k).t
        ds = [(o, z3.simplify(eng.it(value_at(o.heap, loc)) - v0)) for o in normal]
        if ds and not any(occurs(v0, d) for _, d in ds):
            # total of the increments, S(0) = 0, S(j+1) = S(j) + delta(j) by definition
            def delta(x, ds=ds):
                r = z3.IntVal(0)
                for o, d in ds: r = z3.If(zb(at_pc(o, x)), zsub(d, k, x), r)
                return r
            known = [s for s in eng.sums if s[1] == len(idx0)][-12:]
            for nm, _, dl in known + [(f"sum!{len(eng.sums)}", len(idx0), delta)]:
                S = lambda m, nm=nm: eng.app(nm, tuple(idx0) + (zi(m),), I)
                def tot(m, v=_U, S=S): return eng.it(sh.at(m) if v is _U else v) == eng.it(c.init) + S(m)
                sums[tot] = (nm, dl, [S(0) == 0, S(k + 1) == S(k) + dl(k)])
                cands.append(tot)
    if len(kinds) == 2 and ("const", None) in [x[:2] for x in sh.cases] and c.init is None:
        ci = [x[:2] for x in sh.cases].index(("const", None))
        def isn(v):
            if isinstance(v, SUnion): return zor([zand([cc, isn(x)]) for cc, x in v.cases])
            return v is None
        def same_val(a, b):
            if isinstance(a, SUnion): return zand([z3.Implies(zb(cc), zb(same_val(x, b))) for cc, x in a.cases if x is not None])
            if isinstance(b, SUnion): return zand([z3.Implies(zb(cc), zb(same_val(a, x))) for cc, x in b.cases if x is not None])
            if a is None or b is None: return True
            if isinstance(a, (SObj, Opaque)): return a.t == b.t
            return eng.eq(a, b)
        def upd(x):  # iteration x writes a non-None value (starting from None)
            return zor([zand([pc0(o, x), znot(isn(subst(v, k, x)))]) for o, v in vals0])
        def val_is(x, v):
            return zand([z3.Implies(zb(zand([pc0(o, x), znot(isn(subst(y, k, x)))])), zb(same_val(v, subst(y, k, x)))) for o, y in vals0])
        def first(m, v=_U):
            v = sh.at(m) if v is _U else v
            none = zb(isn(v))
            noupd = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.Not(zb(upd(j)))))
            has = z3.Exists([w], z3.And(w >= 0, w < m, zb(upd(w)), zb(val_is(w, v)),
                                        z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.Not(zb(upd(j)))))))
            return z3.And(none == noupd, z3.Implies(z3.Not(none), has))
        def last_(m, v=_U):
            v = sh.at(m) if v is _U else v
            none = zb(isn(v))
            noupd = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.Not(zb(upd(j)))))
            has = z3.Exists([w], z3.And(w >= 0, w < m, zb(upd(w)), zb(val_is(w, v)),
                                        z3.ForAll([j], z3.Implies(z3.And(j > w, j < m), z3.Not(zb(upd(j)))))))
            return z3.And(none == noupd, z3.Implies(z3.Not(none), has))
        cands += [first, last_]
    good = []
    from . import smt
    for t in cands:
        defs = sums[t][2] if t in sums else []
        if split: defs = defs + [z3.Implies(z3.And(k >= 0, k < n) if n is not None else k >= 0, total(k))]
        if t in sums and any(g in sums for g in good): continue
        ok = smt.check_valid(eng, eng.pc + defs, t(z3.IntVal(0), c.init), 4000) == "valid"
        if ok:
            for o in normal:
                facts = list(eng.pc) + defs + [k >= 0, t(k), sh.wf(k) if sh.wf(k) is not True else z3.BoolVal(True)] + list(o.pc)
                if t in sums: facts = ground_at(facts, k)
                if smt.check_valid(eng, facts, t(k + 1, value_at(o.heap, loc)), 2000 if t in sums else 8000) != "valid":
                    ok = False
                    break
        if ok:
            eng.obligations.append(("loop-invariant", f"{loc[2]}", "valid"))
            good.append(t)
            if t in sums and not any(x[0] == sums[t][0] for x in eng.sums): eng.sums.append((sums[t][0], len(idx0), sums[t][1]))
    if split and good:
        eng.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n) if n is not None else j >= 0, total(j))))
    return good
