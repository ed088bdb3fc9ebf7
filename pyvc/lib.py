"""Models of the Python built-ins and library calls the verified code uses.
Everything here is part of the trusted base (the semantics of the language)."""
import ast, builtins, calendar, collections, copy, functools, decimal, enum, inspect, math, os, re, types, typing, dataclasses
import z3
from . import lang, smt
from .values import *
from .tds import *
from .engine import (Engine, Undecided, CarriedRead, PathInfeasible, PoisonRead, PyRaise, _Ret, _Brk, _Cnt, _Done, _QRet,
                     SRec, SSeqV, zand, zor, znot, zb, zi, has_quant, _MISSING, _Super)


# ------------------------------------------------------------------ strings --
def to_str(eng, v):
    if isinstance(v, Poison): raise PoisonRead(v.loc)
    if isinstance(v, str): return v
    if isinstance(v, SStr): return v
    if isinstance(v, SUnion):
        t = None
        for c, x in reversed(v.cases):
            if c is False: continue
            s = eng.st(to_str(eng, x))
            t = s if t is None else z3.If(zb(c), s, t)
        return SStr(t)
    if isinstance(v, SInt): 
        if z3.is_int_value(v.t): return str(v.t.as_long())
        return SStr(eng.app("int2str", (v.t,), eng.S))
    if isinstance(v, SBool): return SStr(z3.If(v.t, eng.lit("True"), eng.lit("False")))
    if isinstance(v, SEnum):
        t = None
        for i, m in reversed(list(enumerate(v.cls))):
            s = eng.lit(str(m))
            t = s if t is None else z3.If(v.t == i, s, t)
        return SStr(t)
    if isinstance(v, Ref):
        r = eng.heap[v.id]
        if isinstance(r, Obj):
            if issubclass(r.cls, BaseException):
                a = r.fields.get("args", ())
                raw = inspect.getattr_static(r.cls, "__str__", None)
                if isinstance(raw, types.FunctionType): return eng.call(raw, [v], {})
                if isinstance(a, tuple) and len(a) == 1: return to_str(eng, a[0])
                if isinstance(a, tuple) and len(a) == 0: return ""
                return SStr(eng.fresh("excstr", eng.S))
            raw = inspect.getattr_static(r.cls, "__str__", None)
            if isinstance(raw, types.FunctionType) and raw.__module__.startswith(("aas_test_engines", "contracts")):
                return eng.call(raw, [v], {})
            return SStr(eng.fresh("objstr", eng.S))
        return SStr(eng.fresh("contstr", eng.S))
    if isinstance(v, SObj):
        if isinstance(v.td, TAbs):
            if "__str__" in v.td.methods: return v.td.methods["__str__"](eng, v, [], {})
            return SStr(eng.app("str_of", (v.t,), eng.S))
        cls = eng.static_class(v)
        if cls is not None:
            raw = inspect.getattr_static(cls, "__str__", None)
            if isinstance(raw, types.FunctionType) and raw.__module__.startswith(("aas_test_engines", "contracts")):
                return eng.call(raw, [v], {})
        return SStr(eng.app("str_of", (v.t,), eng.S))
    if isinstance(v, SRec):
        return SStr(eng.fresh("recstr", eng.S))
    if isinstance(v, Opaque): return SStr(eng.app("str_of", (v.t,), eng.S))
    if isinstance(v, (tuple, list)) and not eng.is_concrete(v):
        return SStr(eng.fresh("tupstr", eng.S))
    if isinstance(v, SV): return SStr(eng.fresh("str", eng.S))
    return str(v)


def cat_parts(eng, v):
    if isinstance(v, str): return [v] if v else []
    return eng.cats.get(v.t.get_id(), [v])


def concat(eng, parts):
    flat = []
    for p in parts:
        for q in cat_parts(eng, p):
            if isinstance(q, str) and flat and isinstance(flat[-1], str): flat[-1] += q
            else: flat.append(q)
    if not flat: return ""
    if len(flat) == 1: return flat[0]
    if eng.strings != "abs":
        return SStr(z3.Concat(*[eng.st(p) for p in flat]))
    t = eng.st(flat[0])
    for p in flat[1:]:
        t = eng.app("cat", (t, eng.st(p)), AStr)
    eng.cats[t.get_id()] = flat
    eng.keep.append(t)
    # non-emptiness of a concatenation with a non-empty literal
    return SStr(t)


def units(ss):
    for u in ss:
        if not isinstance(u, Unit): raise Undecided("nested join")
    return ss


def to_strpart(eng, v):
    if not isinstance(v, (str, SStr)): raise Undecided("join of non-strings")
    return v


def str_uf(eng, name, recv, args, sort):
    eng.abstracted = True
    ts = [eng.st(recv)]
    for a in args:
        if isinstance(a, (str, SStr)): ts.append(eng.st(a))
        elif isinstance(a, (int, SInt)): ts.append(eng.it(a))
        elif a is None: ts.append(z3.IntVal(-987654))
        elif isinstance(a, tuple) and eng.is_concrete(a): ts.append(eng.lit(repr(a)))
        else: raise Undecided(f"str.{name} argument")
    return eng.app("str." + name, tuple(ts), sort)


def slice_rx(lo, hi):
    """regular expression whose group 1 is [lo:hi] of long enough texts"""
    lo = lo or 0
    if lo >= 0 and hi is None: return f"(?s:.{{{lo}}}(.*))"
    if hi is None: return f"(?s:.*(.{{{-lo}}}))"
    if lo >= 0 and hi >= lo: return f"(?s:.{{{lo}}}(.{{{hi - lo}}}).*)"
    if lo >= 0 and hi < 0: return f"(?s:.{{{lo}}}(.*).{{{-hi}}})"
    if lo < 0 and lo <= hi < 0: return f"(?s:.*(.{{{hi - lo}}}).{{{-hi}}})"
    return None


def parts_of(eng, recv, sep):
    """recv.split(sep) for a literal separator: (number of parts, i-th part), the one
    description that split, rsplit, count, partition, find and `in` all refer to"""
    t, q = eng.st(recv), eng.lit(sep)
    n = eng.app("str.split#n", (t, q), I)
    nth = lambda i: SStr(eng.app("str.split#nth", (t, q, zi(i)), AStr))
    eng.abstracted = True
    eng.assume(n >= 1)
    eng.assume(z3.Implies(t == eng.lit(""), n == 1))
    eng.assume(z3.Implies(n == 1, nth(z3.IntVal(0)).t == t))
    eng.split_seps.add(sep)
    if "contains@" + sep in eng.str_preds: eng.assume(eng.str_preds["contains@" + sep][0](t) == (n > 1))
    return n, nth


def sides(eng, recv, sep, last):
    """head and tail of partition (rpartition) when the separator occurs"""
    n, nth = parts_of(eng, recv, sep)
    t, q = eng.st(recv), eng.lit(sep)
    nm = "rpartition" if last else "partition"
    h, l = eng.app(f"str.{nm}#0", (t, q), AStr), eng.app(f"str.{nm}#2", (t, q), AStr)
    eng.assume(z3.Implies(n == 2, z3.And(h == nth(z3.IntVal(0)).t, l == nth(z3.IntVal(1)).t)))
    if last: eng.assume(z3.Implies(n > 1, l == nth(n - 1).t))
    else: eng.assume(z3.Implies(n > 1, h == nth(z3.IntVal(0)).t))
    return n, SStr(h), SStr(l)


def split_parts(eng, recv, sep):
    """the parts of recv when it contains the one-character sep a fixed number of times on this path"""
    from . import extract
    if len(sep) != 1: return None
    e = "\\" + sep if not sep.isalnum() else sep
    n = f"[^{e}]*"
    for k in (1, 2, 3):
        out = []
        for i in range(k + 1):
            pat = e.join(f"({n})" if j == i else n for j in range(k + 1))
            x = extract.extract(eng, recv, lambda: extract.marked(pat, 1), lambda z, i=i: z.split(sep)[i], f"split {sep} {i}/{k}")
            if x is None: break
            out.append(x)
        else: return out
    return None


class SFloat(SV):
    """float(text)"""
    def __init__(self, t): self.t = t


def pyint(s):
    try: int(s)
    except ValueError: return False
    return True


def pyfloat(s):
    try: float(s)
    except ValueError: return False
    return True


def is_int(e, v):
    e.str_auto["int()"] = lang.IntAuto
    return e.str_pred("int()", v, pyint)


def no_such_text(e):
    """no text satisfies the predicates assumed on this path"""
    from . import strlem
    from .engine import qf_parts
    lem = strlem.lemma(e, e.pc)
    if lem is None: return False
    s = z3.Solver()
    s.set("timeout", 5000)
    for c in e.pc: s.add(*qf_parts(c))
    s.add(*lem[1])
    return s.check() == z3.unsat


INT_DIGITS = 64  # int() may refuse longer texts (CPython: 4300 digits; a smaller bound only adds paths to prove)


def intval(e, v):
    """the integer a text denotes and its range if the text is one of finitely many"""
    e.str_preds["intval"] = (e.fn("intval", AStr, I), lambda s: int(decimal.Decimal(s)))
    t = e.app("intval", (v.t,), I)
    r = None
    if e.exts:
        from . import extract
        r = extract.int_range(e, v)
        if r: e.assume(z3.And(t >= r[0], t <= r[1]))
    return t, r


STR_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "replace", "removeprefix",
           "removesuffix", "casefold", "swapcase", "zfill"}
STR_BOOL = {"startswith", "endswith", "isdigit", "isalpha", "isalnum", "isspace", "islower", "isupper", "isdecimal", "isnumeric", "isidentifier", "isprintable", "istitle", "isascii"}


def mapped(eng, sg):
    """a filter-map with exactly one text per item as a map"""
    if not isinstance(sg, FM): return sg
    j = z3.Int("mapped!j")
    def item(j):
        cs = list(sg.cases(j))
        out = []
        for c, ss in cs:
            if len(ss) != 1 or not isinstance(ss[0], Unit): return None
            v = eng.resolve(ss[0].v)
            if not isinstance(v, (str, SStr)): return None
            out.append((c, v))
        return out
    cs = item(j)
    if not cs: return sg
    if smt.check_valid(eng, list(eng.pc), z3.Implies(z3.And(j >= 0, j < zi(sg.n)), zb(zor([c for c, _ in cs]))), 3000, fallback=False) != "valid": return sg
    def nth(j):
        cs = item(zi(j))
        t = eng.st(cs[-1][1])
        for c, v in reversed(cs[:-1]): t = z3.If(zb(c), eng.st(v), t)
        return SStr(t)
    return Span(sg.n, nth)


def str_method(eng, recv, name, args, kw):
    args = [eng.resolve(a) for a in args]
    if isinstance(recv, str) and eng.is_concrete(args) and eng.is_concrete(kw):
        return eng.native(getattr(recv, name), args, kw)
    if kw: raise Undecided(f"str.{name} kwargs")
    if name == "join":
        segs = eng.iter_segs(args[0])
        if all(isinstance(s, Unit) for s in segs):
            out = []
            for i, s in enumerate(segs):
                if i: out.append(recv)
                x = eng.resolve(s.v)
                if not isinstance(x, (str, SStr)): eng.raise_(TypeError, "join: expected str")
                out.append(x)
            return concat(eng, out)
        from .loops import canon_fold
        if recv == "":
            out = []
            for sg in segs:
                if isinstance(sg, Unit): out.append(eng.resolve(sg.v))
                elif isinstance(sg, Span): out.append(canon_fold(eng, sg.n, lambda j, sg=sg: [(True, [to_strpart(eng, sg.nth(j))])]))
                elif isinstance(sg, FM): out.append(canon_fold(eng, sg.n, lambda j, sg=sg: [(c, [to_strpart(eng, u.v) for u in units(ss)]) for c, ss in sg.cases(j)]))
                else: raise Undecided("join of accumulating list")
            return concat(eng, out)
        segs = [mapped(eng, sg) for sg in segs]
        if isinstance(recv, str) and all(isinstance(sg, (Unit, Span)) for sg in segs):
            j = z3.Int("join!j")
            key = ("join", recv, tuple(("unit", eng.st(to_strpart(eng, sg.v)).sexpr()) if isinstance(sg, Unit) else (zi(sg.n).sexpr(), eng.st(to_strpart(eng, sg.nth(j))).sexpr()) for sg in segs), tuple(i.sexpr() for i in eng.idx))
            ids = eng.foldkeys
            if key not in ids: ids[key] = len(ids)
            J = eng.app(f"join!{ids[key]}", tuple(eng.idx), eng.S)
            if len(segs) == 1 and isinstance(segs[0], Span):
                # joins of sequences that are pointwise equal (on this path) are equal
                t, n = eng.st(to_strpart(eng, segs[0].nth(j))), zi(segs[0].n)
                prior = eng.joins
                for recv2, n2, t2, idx2, id2 in prior:
                    if id2 != ids[key] and recv2 == recv and n2.eq(n) and idx2 == key[3] and smt.check_valid(eng, list(eng.pc), z3.Implies(z3.And(j >= 0, j < n), t == t2), 3000, fallback=False) == "valid":
                        eng.assume(J == eng.app(f"join!{id2}", tuple(eng.idx), eng.S))
                if all(p[4] != ids[key] for p in prior): prior.append((recv, n, t, key[3], ids[key]))
            eng.assume(z3.Implies(zi(eng.seq_len(segs)) == 0, J == eng.lit("")))
            if len(segs) == 1: eng.assume(z3.Implies(zi(segs[0].n) == 1, J == eng.st(segs[0].nth(z3.IntVal(0)))))
            return SStr(J)
        return SStr(eng.fresh("join", eng.S))
    if name == "format": return SStr(eng.fresh("format", eng.S))
    if name == "encode":
        if args and not (len(args) == 1 and isinstance(args[0], str) and args[0].lower() in ("utf-8", "utf8")): raise Undecided("encoding")
        return SObj(eng.app("encode", (eng.st(recv),), U), TAbs("bytes", cls=bytes))
    if eng.strings != "abs":
        t = eng.st(recv)
        if name == "startswith" and len(args) == 1 and isinstance(args[0], (str, SStr)): return SBool(z3.PrefixOf(eng.st(args[0]), t))
        if name == "endswith" and len(args) == 1 and isinstance(args[0], (str, SStr)): return SBool(z3.SuffixOf(eng.st(args[0]), t))
        if name == "find" and len(args) == 1: return eng.mkint(z3.IndexOf(t, eng.st(args[0]), 0))
        if name in ("rfind", "rindex", "index") and len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
            if not eng.branch(z3.Contains(t, eng.st(args[0]))):
                if name == "rfind": return -1
                eng.raise_(ValueError, "substring not found")
            if name == "index": return eng.mkint(z3.IndexOf(t, eng.st(args[0]), 0))
            a, m, b = str_method(eng, recv, "rpartition", args, {})
            return eng.mkint(z3.Length(a.t))
        if name in ("partition", "rpartition") and len(args) == 1:
            sep = eng.st(args[0])
            if not eng.branch(z3.Contains(t, sep)): return (recv, "", "") if name == "partition" else ("", "", recv)
            a, b = eng.app(name + ".head", (t, sep), z3.StringSort()), eng.app(name + ".tail", (t, sep), z3.StringSort())
            eng.assume(t == z3.Concat(a, sep, b))
            # the first (last) occurrence, for separators of one character
            if not (isinstance(args[0], str) and len(args[0]) == 1): raise Undecided(f"str.{name} with long separator")
            eng.assume(z3.Not(z3.Contains(a if name == "partition" else b, sep)))
            return SStr(a), args[0], SStr(b)
        if name in ("removeprefix", "removesuffix") and len(args) == 1:
            q = eng.st(args[0])
            if name == "removeprefix": return SStr(z3.If(z3.PrefixOf(q, t), z3.SubString(t, z3.Length(q), z3.Length(t) - z3.Length(q)), t))
            return SStr(z3.If(z3.And(z3.SuffixOf(q, t), z3.Length(q) > 0), z3.SubString(t, 0, z3.Length(t) - z3.Length(q)), t))
        if name in ("split", "rsplit") and len(args) == 2 and isinstance(args[0], str) and args[1] == 1 and not isinstance(args[1], SV):
            a, m, b = str_method(eng, recv, "partition" if name == "split" else "rpartition", [args[0]], {})
            return eng.new_list([a, b] if m else [recv])
        h = eng.hooks.get("str." + name)
        if h: return h(eng, recv, args)
        if name in ("strip", "lstrip", "rstrip", "lower", "upper", "title", "casefold") and not args and not kw:
            # some string, the same for equal receivers
            eng.abstracted = True
            return SStr(eng.app("str." + name, (t,), eng.S))
        raise Undecided(f"str.{name} in string theory")
    if name in STR_BOOL and len(args) <= 1:
        if len(args) == 1 and isinstance(args[0], tuple):
            return eng.to_bool_value(zor([zb(eng.truth_val(str_method(eng, recv, name, [a], {}))) for a in args[0]]))
        t = str_uf(eng, name, recv, args, B)
        if eng.is_concrete(args):
            f = eng.fn(f"str.{name}@" + repr(args), AStr, B)
            # concrete arguments: a predicate evaluated on literals
            eng.str_preds[f"str.{name}@" + repr(args)] = (f, lambda s, name=name, args=tuple(args): getattr(s, name)(*args))
            if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], str): eng.str_auto[f"str.{name}@" + repr(args)] = lambda: lang.AffixAuto(name, args[0])
            if name in ("isdigit", "isalpha", "isalnum", "isspace", "isdecimal", "isnumeric") and not args: eng.str_auto[f"str.{name}@" + repr(args)] = lambda: lang.AllCharsAuto(name, getattr(str, name))
            if name == "isascii": eng.str_auto[f"str.{name}@" + repr(args)] = lambda: lang.AllCharsAuto(name, str.isascii, True)
            return SBool(f(eng.st(recv)))
        return SBool(t)
    if name in STR_STR and eng.is_concrete(args):
        key = f"str.{name}@" + repr(args)
        f = eng.fn(key, AStr, AStr)
        eng.str_preds[key] = (f, lambda s, name=name, args=tuple(args): getattr(s, name)(*args))
        return SStr(f(eng.st(recv)))
    if name in STR_STR: return SStr(str_uf(eng, name, recv, args, AStr))
    if name in ("find", "rfind", "count", "index", "rindex") and len(args) == 1 and isinstance(args[0], str) and args[0]:
        ps = split_parts(eng, recv, args[0]) if isinstance(recv, SStr) and name != "rfind" and name != "rindex" else None
        if ps is not None: return len(ps) - 1 if name == "count" else eng.mkint(eng.strlen(ps[0]))
        n, nth = parts_of(eng, recv, args[0])
        if name == "count": return SInt(n - 1)
        if name in ("index", "rindex"):
            if not eng.branch(n > 1): eng.raise_(ValueError, "substring not found")
            name = name.replace("index", "find")
        f = str_uf(eng, name, recv, args, I)
        eng.assume(z3.And(f >= -1, (f >= 0) == (n > 1)))
        return SInt(f)
    if name in ("find", "rfind", "count"): return SInt(str_uf(eng, name, recv, args, I))
    if name in ("split", "rsplit") and len(args) == 1 and isinstance(args[0], str) and isinstance(recv, SStr):
        ps = split_parts(eng, recv, args[0])
        if ps is not None: return eng.new_list(ps)
        if args[0]:
            n, nth = parts_of(eng, recv, args[0])
            return eng.alloc(Lst([Span(n, nth)]))
    if name in ("split", "rsplit") and len(args) == 2 and isinstance(args[0], str) and args[0] and isinstance(recv, SStr) and args[1] == 1 and not isinstance(args[1], (SV, bool)):
        ps = split_parts(eng, recv, args[0])
        if ps is not None and len(ps) == 2: return eng.new_list(ps)
        n, h, l = sides(eng, recv, args[0], name == "rsplit")
        return eng.new_list([h, l] if eng.branch(n > 1) else [recv])
    if name in ("partition", "rpartition") and len(args) == 1 and isinstance(args[0], str) and args[0] and isinstance(recv, SStr):
        ps = split_parts(eng, recv, args[0])
        if ps is not None and len(ps) == 2: return ps[0], args[0], ps[1]
        n, h, l = sides(eng, recv, args[0], name == "rpartition")
        if eng.branch(n > 1): return h, args[0], l
        return (recv, "", "") if name == "partition" else ("", "", recv)
    if name in ("split", "rsplit", "splitlines"):
        n = str_uf(eng, name + "#n", recv, args, I)
        eng.assume(n >= (1 if args and args[0] is not None else 0))
        if len(args) > 1 and isinstance(args[1], int): eng.assume(n <= args[1] + 1)
        ts = [eng.st(recv)]
        for a in args: ts.append(eng.st(a) if isinstance(a, (str, SStr)) else eng.it(a) if a is not None else z3.IntVal(-1))
        nth = lambda i: SStr(eng.app("str." + name + "#nth", tuple(ts) + (zi(i),), AStr))
        if name != "splitlines" and args and isinstance(args[0], str): eng.assume(z3.Implies(ts[0] == eng.lit(""), z3.And(n == 1, nth(z3.IntVal(0)).t == eng.lit(""))))
        return eng.alloc(Lst([Span(n, nth)]))
    if name in ("partition", "rpartition"):
        return tuple(SStr(str_uf(eng, f"{name}#{i}", recv, args, AStr)) for i in range(3))
    if not hasattr(str, name): eng.raise_(AttributeError, f"'str' object has no attribute '{name}'")
    raise Undecided(f"str.{name}")


# ------------------------------------------------------------------ dicts ----
def group_lookup(eng, recv, r, k):
    """the list kept under k in a dict of collected lists, where a missing one counts as empty; None if it is not such a dict"""
    from .loops import FoldGroup
    if not any(isinstance(p, (CarriedSeg, FoldGroup)) for p in r.puts) or any(isinstance(p, tuple) and isinstance(p[0], _Del) for p in r.puts): return None
    k = eng.resolve(k)
    for p in reversed(r.puts):
        if isinstance(p, CarriedSeg): new = eng.alloc(Lst((GroupSeg(("group", p.loc)),)))
        elif isinstance(p, FoldGroup) and p.touched: return SSeqV((p.under(eng, k),))
        elif isinstance(p, FoldGroup): new = eng.alloc(Lst((p.under(eng, k),)))
        elif not isinstance(p, tuple): return None
        else:
            if eng.branch(eng.eq(p[0], k)): return p[1]
            continue
        eng.heap[recv.id] = Dct(r.base, r.puts + ((k, new),), r.default)
        return new
    return None


def dict_lookup(eng, r, k, missing):
    """value for key k, or missing()"""
    from .loops import FoldPuts, FoldGroup
    k = eng.resolve(k)
    for p in reversed(r.puts):
        if isinstance(p, FoldGroup):
            j = eng._qvar()
            if eng.branch(z3.Exists([j], z3.And(j >= 0, j < zi(p.n), zb(zor([zand([c, eng.eq(kk, k)]) for c, ps in p.cases(j) for kk, _ in ps]))))): return SSeqV((p.under(eng, k),))
            continue
        if isinstance(p, CarriedSeg): raise Undecided("reads accumulating dict")
        if isinstance(p, FoldPuts):
            w = eng.fresh("w", I)
            def match(j):
                out = []
                for c, ps in p.cases(j):
                    for kk, vv in ps: out.append((zand([c, eng.eq(kk, k)]), vv))
                return out
            j = eng._qvar()
            anym = lambda x: zb(zor([c for c, _ in match(x)]))
            rng = z3.And(j >= 0, j < zi(p.n))
            opts = [z3.And(w >= 0, w < zi(p.n), anym(w)), z3.BoolVal(True)]
            if eng.decide(opts) == 0:
                eng.assume(z3.ForAll([j], z3.Implies(z3.And(j > w, j < zi(p.n)), z3.Not(anym(j)))))
                ms = match(w)
                i = eng.decide([zb(c) for c, _ in ms]) if len(ms) > 1 else 0
                return ms[i][1]
            eng.assume(z3.ForAll([j], z3.Implies(rng, z3.Not(anym(j)))))
            continue
        if isinstance(p[0], _Del):
            if eng.branch(eng.eq(p[0].k, k)): return missing()
            continue
        if eng.branch(eng.eq(p[0], k)): return p[1]
    if r.base is not None:
        if not isinstance(k, (str, SStr)) and not getattr(r.base, "anykey", False): return missing()
        if eng.branch(r.base.has(k)): return r.base.get(k)
    return missing()


class _Del:
    def __init__(self, k): self.k = k


def dict_has(eng, r, k):
    from .loops import FoldPuts, FoldGroup
    k = eng.resolve(k)
    out = []
    neg = []
    for p in reversed(r.puts):
        if isinstance(p, CarriedSeg): raise Undecided("reads accumulating dict")
        if isinstance(p, (FoldPuts, FoldGroup)):
            j = eng._qvar()
            c = zor([zand([c, eng.eq(kk, k)]) for c, kk in p.keys(j)])
            out.append(zand(neg + [z3.Exists([j], z3.And(j >= 0, j < zi(p.n), zb(c)))]))
            continue
        if isinstance(p[0], _Del):
            neg.append(znot(eng.eq(p[0].k, k)))
            continue
        out.append(zand(neg + [eng.eq(p[0], k)]))
    if r.base is not None and (isinstance(k, (str, SStr)) or getattr(r.base, "anykey", False)):
        out.append(zand(neg + [r.base.has(k)]))
    return zor(out)


def dict_keys_segs(eng, r):
    return [seg for seg in dict_items_segs(eng, r, lambda k, v: k)]


def dict_items_segs(eng, r, f):
    from .loops import FoldPuts
    puts = list(r.puts)
    gone = [p[0].k for p in puts if isinstance(p, tuple) and isinstance(p[0], _Del)]
    if r.base is not None and len(gone) < len(puts):
        raise Undecided("iteration over updated symbolic dict")
    if r.base is not None:
        b = r.base
        if gone:
            def cases(i):
                out = zor([eng.eq(SStr(b.key(i)), d) for d in gone])
                return [(out, []), (znot(out), [Unit(f(SStr(b.key(i)), b.get(SStr(b.key(i)))))])]
            return [FM(b.n, cases)]
        return [Span(b.n, lambda i: f(SStr(b.key(i)), b.get(SStr(b.key(i)))))]
    if len(puts) == 1 and isinstance(puts[0], FoldPuts): return built_items(eng, puts[0], f)
    if any(isinstance(p, FoldPuts) for p in puts): raise Undecided("iteration over built dict")
    out, keys = [], []
    for p in puts:
        if isinstance(p[0], _Del):
            d = p[0].k
            if isinstance(d, SV): raise Undecided("iteration over dict with symbolic deletion")
            out = [(k, v) for k, v in out if not (not isinstance(k, SV) and k == d)]
            continue
        hit = None
        for i, (k, v) in enumerate(out):
            e = eng.eq(k, p[0])
            if eng.branch(e):
                hit = i
                break
        if hit is None: out.append((p[0], p[1]))
        else: out[hit] = (out[hit][0], p[1])
    return [Unit(f(k, v)) for k, v in out]


def built_items(eng, p, f):
    """entries of a dict built in a loop that never puts a key twice (discharged here)"""
    from . import smt
    i, j = eng._qvar(), eng._qvar()
    a, b = p.cases(i), p.cases(j)
    if any(len(ps) > 1 for _, ps in a): raise Undecided("iteration over built dict")
    clash = zor([zand([c, d, eng.eq(x[0][0], y[0][0])]) for c, x in a if x for d, y in b if y])
    if smt.check_valid(eng, list(eng.pc), z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zi(p.n)), z3.Not(zb(clash)))), 4000) != "valid": raise Undecided("iteration over built dict")
    eng.obligations.append(("loop-invariant", "no key is put twice", "valid"))
    return [FM(p.n, lambda j: [(c, [Unit(f(*ps[0]))] if ps else []) for c, ps in p.cases(j)])]


def dict_method(eng, recv, r, name, args, kw):
    if name == "get":
        d = args[1] if len(args) > 1 else kw.get("default")
        return dict_lookup(eng, r, args[0], lambda: d)
    if name == "items": return eng.alloc(Lst(dict_items_segs(eng, r, lambda k, v: (k, v))))
    if name == "keys": return eng.alloc(Lst(dict_keys_segs(eng, r)))
    if name == "values": return eng.alloc(Lst(dict_items_segs(eng, r, lambda k, v: v)))
    if name == "pop":
        miss = (lambda: args[1]) if len(args) > 1 else (lambda: eng.raise_(KeyError, args[0]))
        v = dict_lookup(eng, r, args[0], miss)
        eng.heap[recv.id] = Dct(r.base, r.puts + ((_Del(eng.resolve(args[0])), None),), r.default)
        return v
    if name == "setdefault":
        d = eng.resolve(args[1]) if len(args) > 1 else None
        if isinstance(d, Ref) and isinstance(eng.heap[d.id], Lst) and not eng.heap[d.id].segs:
            v = group_lookup(eng, recv, r, args[0])
            if v is not None: return v
        def miss():
            d = args[1] if len(args) > 1 else None
            setitem(eng, recv, args[0], d)
            return d
        return dict_lookup(eng, r, args[0], miss)
    if name == "update":
        o = eng.resolve(args[0]) if args else None
        if o is not None:
            if isinstance(o, Ref) and isinstance(eng.heap[o.id], Dct):
                ro = eng.heap[o.id]
                if ro.base is None: puts = list(ro.puts)
                elif not r.puts:
                    eng.heap[recv.id] = Dct(eng.merged(r.base, ro.base), ro.puts, r.default)
                    puts = []
                else: raise Undecided("dict.update")
            elif isinstance(o, SMap) and not r.puts:
                eng.heap[recv.id] = Dct(eng.merged(r.base, o), (), r.default)
                puts = []
            elif isinstance(o, dict): puts = list(o.items())
            else: raise Undecided("dict.update")
            r = eng.heap[recv.id]
            eng.heap[recv.id] = Dct(r.base, r.puts + tuple(puts), r.default)
        if kw:
            r = eng.heap[recv.id]
            eng.heap[recv.id] = Dct(r.base, r.puts + tuple(kw.items()), r.default)
        return None
    if name == "copy": return eng.alloc(Dct(r.base, r.puts, r.default))
    if name == "clear":
        eng.heap[recv.id] = Dct(None, (), r.default)
        return None
    raise Undecided(f"dict.{name}")


# ------------------------------------------------------------------ lists ----
def sort_units(eng, segs, kw):
    """stable sort of literally listed values by concrete keys"""
    if set(kw) - {"key", "reverse"} or not all(isinstance(s, Unit) for s in segs): raise Undecided("sort of symbolic list")
    vs = [s.v for s in segs]
    key = eng.resolve(kw.get("key"))
    ks = [eng.resolve(eng.call(key, [v], {})) if key is not None else eng.resolve(v) for v in vs]
    rev = eng.resolve(kw.get("reverse", False))
    if len(vs) > 1 and (not all(eng.is_concrete(x) for x in ks) or not isinstance(rev, (bool, int))): raise Undecided("sort by symbolic keys")
    try: order = sorted(range(len(vs)), key=lambda i: ks[i], reverse=bool(rev)) if len(vs) > 1 else range(len(vs))
    except TypeError as x: eng.raise_(TypeError, str(x))
    return [vs[i] for i in order]


def list_method(eng, recv, r, name, args, kw):
    if name == "sort":
        eng.heap[recv.id] = Lst(tuple(Unit(v) for v in sort_units(eng, r.segs, kw)))
        return None
    if name == "append":
        eng.heap[recv.id] = Lst(r.segs + (Unit(args[0]),))
        return None
    if name == "extend":
        eng.heap[recv.id] = Lst(r.segs + tuple(eng.iter_segs(args[0])))
        return None
    if name == "insert":
        i = eng.resolve(args[0])
        if i == 0 and not isinstance(i, SV):
            if any(isinstance(s, CarriedSeg) for s in r.segs): raise Undecided("insert into accumulating list")
            eng.heap[recv.id] = Lst((Unit(args[1]),) + r.segs)
            return None
        if isinstance(i, int) and all(isinstance(s, Unit) for s in r.segs):
            l = list(r.segs)
            l.insert(i, Unit(args[1]))
            eng.heap[recv.id] = Lst(l)
            return None
        raise Undecided("list.insert")
    if name == "pop":
        segs = list(r.segs)
        i = eng.resolve(args[0]) if args else -1
        if i == -1 and not isinstance(i, SV):
            while True:
                if not segs: eng.raise_(IndexError, "pop from empty list")
                s = segs[-1]
                if isinstance(s, Unit):
                    segs.pop()
                    eng.heap[recv.id] = Lst(segs)
                    return s.v
                if isinstance(s, Span):
                    if eng.branch(zi(s.n) > 0):
                        segs[-1] = Span(z3.simplify(zi(s.n) - 1), s.nth)
                        eng.heap[recv.id] = Lst(segs)
                        return s.nth(z3.simplify(zi(s.n) - 1))
                    segs.pop()
                    continue
                raise CarriedRead("pop from accumulating list", segs)
        if isinstance(i, int) and all(isinstance(s, Unit) for s in segs):
            if not -len(segs) <= i < len(segs): eng.raise_(IndexError, "pop index out of range")
            s = segs.pop(i)
            eng.heap[recv.id] = Lst(segs)
            return s.v
        if i == 0 and not isinstance(i, SV) and segs and isinstance(segs[0], Unit):
            eng.heap[recv.id] = Lst(segs[1:])
            return segs[0].v
        raise Undecided("list.pop(i)")
    if name == "copy": return eng.alloc(Lst(r.segs))
    if name == "clear":
        eng.heap[recv.id] = Lst(())
        return None
    if name == "reverse":
        eng.heap[recv.id] = Lst(reverse_segs(r.segs))
        return None
    if name in ("index", "count", "remove") and all(isinstance(s, Unit) for s in r.segs):
        hits = 0
        for i, s in enumerate(r.segs):
            if eng.branch(eng.eq(s.v, args[0])):
                if name == "index": return i
                if name == "remove":
                    eng.heap[recv.id] = Lst(r.segs[:i] + r.segs[i + 1:])
                    return None
                hits += 1
        if name == "count": return hits
        eng.raise_(ValueError, "not in list")
    raise Undecided(f"list.{name}")


def reverse_segs(segs):
    out = []
    for s in reversed(segs):
        if isinstance(s, Unit): out.append(s)
        elif isinstance(s, Span): out.append(Span(s.n, lambda i, s=s: s.nth(z3.simplify(zi(s.n) - 1 - zi(i)))))
        else: raise Undecided("reverse")
    return out


def set_method(eng, recv, r, name, args, kw):
    if name == "add":
        eng.heap[recv.id] = Set_(r.elems + (eng.resolve(args[0]),), r.preds)
        return None
    if name in ("update", "union"):
        o = eng.resolve(args[0])
        if isinstance(o, Ref) and isinstance(eng.heap[o.id], Set_):
            ro = eng.heap[o.id]
            n = Set_(r.elems + ro.elems, r.preds + ro.preds)
        elif isinstance(o, (set, frozenset)):
            n = Set_(r.elems + tuple(o), r.preds)
        else:
            segs = eng.iter_segs(o)
            n = Set_(r.elems + tuple(s.v for s in segs if isinstance(s, Unit)), r.preds + tuple(seg_pred(eng, s) for s in segs if not isinstance(s, Unit)))
        if name == "union": return eng.alloc(n)
        eng.heap[recv.id] = n
        return None
    if name == "copy": return eng.alloc(r)
    raise Undecided(f"set.{name}")


def seg_pred(eng, s):
    """membership predicate of a segment"""
    if isinstance(s, Span):
        return lambda v: eng.quantify_c(zi(s.n), lambda j: eng.eq(s.nth(j), v), True)
    if isinstance(s, FM):
        def body(j, v):
            cs = s.cases(j)
            return zor([zand([c] + [zor([eng.eq(u.v, v) for u in segs])]) for c, segs in cs])
        return lambda v: eng.quantify_c(zi(s.n), lambda j: body(j, v), True)
    raise Undecided("membership in accumulating list")


def method(eng, recv, name, args, kw):
    recv = eng.resolve(recv)
    if isinstance(recv, (str, SStr)): return str_method(eng, recv, name, args, kw)
    if isinstance(recv, Ref):
        r = eng.heap[recv.id]
        if isinstance(r, Lst): return list_method(eng, recv, r, name, args, kw)
        if isinstance(r, Dct): return dict_method(eng, recv, r, name, args, kw)
        if isinstance(r, Set_): return set_method(eng, recv, r, name, args, kw)
        if isinstance(r, Obj):
            if name == "__init__": return None
            if name == "__str__": return to_str(eng, recv)
            raise Undecided(f"method {name} of {r.cls.__name__}")
    if isinstance(recv, (SList, SSeqV)):
        if name in ("append", "extend", "insert", "pop", "clear"): raise Undecided("mutation of symbolic input list")
        tmp = eng.alloc(Lst(eng.iter_segs(recv)))
        return list_method(eng, tmp, eng.heap[tmp.id], name, args, kw)
    if isinstance(recv, SMap):
        tmp = eng.alloc(Dct(recv, ()))
        if name in ("pop", "update", "setdefault", "clear"): raise Undecided("mutation of symbolic input dict")
        return dict_method(eng, tmp, eng.heap[tmp.id], name, args, kw)
    if isinstance(recv, dict):
        if name in ("get", "items", "keys", "values"):
            if eng.is_concrete(args) and not any(isinstance(x, Ref) for x in args):
                if name == "get" and args:
                    return recv.get(*args)
            return dict_method(eng, None, Dct(None, list(recv.items())), name, args, kw)
        raise Undecided(f"mutation of global dict .{name}")
    if isinstance(recv, (set, frozenset)):
        if name in ("union", "intersection", "difference", "issubset", "copy") and eng.is_concrete(args):
            r = getattr(recv, name)(*args)
            return frozenset(r) if isinstance(r, set) else r
        raise Undecided(f"set.{name}")
    if isinstance(recv, list):
        if name in ("append", "extend", "insert", "pop", "clear", "remove", "sort", "reverse"): raise Undecided(f"mutation of global list .{name}")
    if isinstance(recv, SV): 
        if recv is None: pass
        raise Undecided(f"method {name} of {recv!r}")
    f = getattr(recv, name)
    if eng.is_concrete(args) and eng.is_concrete(kw): return eng.native(f, args, kw)
    raise Undecided(f"method {name} of {type(recv).__name__}")


# -------------------------------------------------------------- operators ----
OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
       ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b, ast.Div: lambda a, b: a / b,
       ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.Pow: lambda a, b: a ** b,
       ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b, ast.BitXor: lambda a, b: a ^ b}


def binop(eng, op, a, b):
    a, b = eng.resolve(a), eng.resolve(b)
    ra = eng.heap.get(a.id) if isinstance(a, Ref) else None
    rb = eng.heap.get(b.id) if isinstance(b, Ref) else None
    dn = {ast.BitOr: "__or__", ast.Add: "__add__", ast.Sub: "__sub__", ast.BitAnd: "__and__", ast.Mult: "__mul__"}.get(type(op))
    if isinstance(a, SEnum) and dn:
        raw = inspect.getattr_static(a.cls, dn, None)
        if isinstance(raw, types.FunctionType): return eng.call(raw, [a, b], {})
    if isinstance(a, enum.Enum) and dn:
        raw = inspect.getattr_static(type(a), dn, None)
        if isinstance(raw, types.FunctionType): return eng.call(raw, [a, b], {})
    if isinstance(a, SObj) and isinstance(a.td, TAbs) and dn in a.td.methods: return a.td.methods[dn](eng, a, [b], {})
    if isinstance(ra, Obj) and dn:
        raw = inspect.getattr_static(ra.cls, dn, None)
        if isinstance(raw, types.FunctionType): return eng.call(raw, [a, b], {})
    if not isinstance(a, SV) and not isinstance(b, SV):
        try:
            r = OPS[type(op)](a, b)
        except KeyError:
            raise Undecided("operator")
        except Exception as e:
            eng.raise_(type(e), *e.args)
        return eng.lift(r)
    if isinstance(op, ast.Add):
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)): return concat(eng, [a, b])
        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            eng.raise_(TypeError, "can only concatenate str")
        sa, sb = eng.as_segs(a), eng.as_segs(b)
        if sa is not None and sb is not None: return eng.alloc(Lst(tuple(sa) + tuple(sb)))
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (str, SStr)) and isinstance(y, (SInt, int)) and not isinstance(y, bool):
                if isinstance(y, int): return concat(eng, [x] * max(0, y))
                if z3.is_int_value(y.t): return concat(eng, [x] * max(0, y.t.as_long()))
                r = SStr(eng.app("strrep", (eng.st(x), y.t), eng.S))
                if isinstance(x, str): eng.assume(zi(eng.strlen(r)) == len(x) * z3.If(y.t > 0, y.t, 0))
                return r
    if isinstance(op, ast.Mod) and isinstance(a, (str, SStr)):
        return SStr(eng.fresh("fmt", eng.S))
    if isinstance(op, (ast.BitOr,)):
        for x, y in ((a, ra), ):
            if isinstance(ra, Set_): return set_method(eng, a, ra, "union", [b], {})
        if isinstance(ra, Dct) and isinstance(rb, Dct) and rb.base is None:
            return eng.alloc(Dct(ra.base, ra.puts + rb.puts, ra.default))
        if isinstance(ra, Dct) or isinstance(a, SMap):
            new = eng.alloc(Dct(ra.base, ra.puts, ra.default) if isinstance(ra, Dct) else Dct(a, ()))
            dict_method(eng, new, eng.heap[new.id], "update", [b], {})
            return new
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return eng.to_bool_value(zor([eng.truth_val(a), eng.truth_val(b)]))
    if isinstance(op, ast.BitAnd) and isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return eng.to_bool_value(zand([eng.truth_val(a), eng.truth_val(b)]))
    num = (SInt, SBool, int, bool)
    if isinstance(a, num) and isinstance(b, num):
        x, y = eng.it(a), eng.it(b)
        if isinstance(op, ast.Add): return eng.mkint(x + y)
        if isinstance(op, ast.Sub): return eng.mkint(x - y)
        if isinstance(op, ast.Mult): return eng.mkint(x * y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if not isinstance(b, int): raise Undecided("division by symbolic value")
            if b == 0: eng.raise_(ZeroDivisionError, "division by zero")
            if isinstance(op, ast.Mod) and 1 < b <= 16 and eng.strings == "abs" and z3.is_app(x) and x.decl().name() == "strlen":
                t, r = x.arg(0), z3.IntVal(0)
                for i in range(1, b):
                    nm = f"len%{b}=={i}"
                    eng.str_auto[nm] = lambda i=i: lang.ModLenAuto(b, i)
                    r = z3.If(eng.str_pred(nm, SStr(t), lambda q, i=i: len(q) % b == i), z3.IntVal(i), r)
                return SInt(r)
            if b > 0: return eng.mkint(x / y if isinstance(op, ast.FloorDiv) else x % y)
        raise Undecided("int operator")
    if a is None or b is None: eng.raise_(TypeError, "unsupported operand type(s)")
    if isinstance(a, num) != isinstance(b, num) and (isinstance(a, (str, SStr)) or isinstance(b, (str, SStr))):
        eng.raise_(TypeError, "unsupported operand type(s)")
    raise Undecided(f"operator {type(op).__name__} on {a!r}, {b!r}")


def compare(eng, op, a, b):
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if eng.strings != "abs":
            x, y = eng.st(a), eng.st(b)
            return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: y < x, ast.GtE: lambda: y <= x}[type(op)]()
        lt = lambda p, q: eng.app("strlt", (eng.st(p), eng.st(q)), B)
        if isinstance(op, ast.Lt): return lt(a, b)
        if isinstance(op, ast.Gt): return lt(b, a)
        if isinstance(op, ast.LtE): return z3.Not(lt(b, a))
        return z3.Not(lt(a, b))
    if a is None or b is None:
        eng.raise_(TypeError, "not orderable")
    if isinstance(a, SFloat) or isinstance(b, SFloat):
        o = type(op)
        if isinstance(b, SFloat) and not isinstance(a, SFloat):
            a, b, o = b, a, {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[o]
        if isinstance(b, (int, float)):
            nm = f"float{o.__name__}@{b!r}"
            g = {ast.Lt: lambda x: x < b, ast.Gt: lambda x: x > b, ast.LtE: lambda x: x <= b, ast.GtE: lambda x: x >= b}[o]
            return eng.str_pred(nm, SStr(a.t), lambda s: g(float(s)))
        return None
    if isinstance(a, Ref) and isinstance(eng.heap[a.id], Set_) or isinstance(b, Ref) and isinstance(eng.heap[b.id], Set_):
        raise Undecided("set comparison")
    return None


def contains(eng, c, v):
    if isinstance(c, (str, SStr)):
        v = eng.resolve(v)
        if not isinstance(v, (str, SStr)): eng.raise_(TypeError, "'in <string>' requires string")
        if isinstance(c, str) and isinstance(v, str): return v in c
        if eng.strings != "abs": return z3.Contains(eng.st(c), eng.st(v))
        if isinstance(v, str):
            eng.str_auto["contains@" + v] = lambda: lang.AffixAuto("contains", v)
            r = eng.str_pred("contains@" + v, c, lambda s: v in s)
            if v and isinstance(c, SStr) and not isinstance(r, bool) and v in eng.split_seps: parts_of(eng, c, v)
            return r
        return eng.app("contains", (eng.st(c), eng.st(v)), B)
    if isinstance(c, Ref):
        r = eng.heap[c.id]
        if isinstance(r, Lst): return seq_contains(eng, r.segs, v)
        if isinstance(r, Set_):
            if v is None and not r.preds and not r.elems: return False
            out = [eng.eq(e, v) for e in r.elems]
            for p in r.preds: out.append(p(v))
            return zor(out)
        if isinstance(r, Dct): return dict_has(eng, r, v)
        if isinstance(r, Obj) and hasattr(r.cls, "__contains__"): return eng.truth_val(eng.call_method(c, "__contains__", [v], {}))
    if isinstance(c, SMap):
        v = eng.resolve(v)
        if not isinstance(v, (str, SStr)): return False
        return c.has(v)
    if isinstance(c, (SList, SSeqV)): return seq_contains(eng, eng.iter_segs(c), v)
    if isinstance(c, SObj) and isinstance(c.td, TAbs) and "__contains__" in c.td.methods:
        return eng.truth_val(c.td.methods["__contains__"](eng, c, [v], {}))
    if isinstance(c, (list, tuple, set, frozenset, dict)) or isinstance(c, type({}.keys())):
        if isinstance(v, SUnion):
            return zor([zand([g, contains(eng, c, x)]) for g, x in v.cases])
        return zor([eng.eq(x, v) for x in c])
    if inspect.isclass(c) and issubclass(c, enum.Enum):
        return zor([eng.eq(x, v) for x in c])
    if c is None or isinstance(c, (SInt, SBool, int, float, SEnum)):
        eng.raise_(TypeError, "argument is not iterable")
    if isinstance(c, range) and isinstance(eng.resolve(v), SInt):
        t = eng.resolve(v).t
        if c.step > 0: return z3.And(t >= c.start, t < c.stop, (t - c.start) % c.step == 0) if c.step != 1 else z3.And(t >= c.start, t < c.stop)
        return z3.And(t <= c.start, t > c.stop, (c.start - t) % -c.step == 0)
    if isinstance(c, SV): raise Undecided(f"in {c!r}")
    if eng.is_concrete(v): return v in c
    raise Undecided("in")


def seq_contains(eng, segs, v):
    out = []
    for s in segs:
        if isinstance(s, Unit): out.append(eng.eq(s.v, v))
        else: out.append(seg_pred(eng, s)(v))
    return zor(out)


def getitem(eng, o, k):
    if isinstance(k, slice): return getslice(eng, o, k)
    if isinstance(o, dict):
        k = eng.resolve(k) if not (isinstance(k, SUnion) and all(not isinstance(x, SV) for _, x in k.cases)) else k
        if isinstance(k, SUnion) and all(x in o for _, x in k.cases):
            return eng.mk_union([(c, o[x]) for c, x in k.cases])
        k = eng.resolve(k)
        if not isinstance(k, SV):
            try:
                return eng.lift(o[k]) if isinstance(o[k], (list, dict, set)) and False else o[k]
            except KeyError: eng.raise_(KeyError, k)
            except TypeError: eng.raise_(TypeError, "unhashable")
        ks = list(o)
        conds = [eng.eq(x, k) for x in ks]
        if not eng.branch(zor(conds)): eng.raise_(KeyError, k)
        return eng.mk_union([(c, o[x]) for c, x in zip(conds, ks) if c is not False])
    if isinstance(o, Ref):
        r = eng.heap[o.id]
        if isinstance(r, Dct):
            kk = eng.resolve(k)
            if r.default is list:
                v = group_lookup(eng, o, r, kk)
                if v is not None: return v
            def miss():
                if r.default is not None:
                    v = eng.call(r.default, [], {})
                    setitem(eng, o, kk, v)
                    return v
                eng.raise_(KeyError, kk)
            return dict_lookup(eng, r, kk, miss)
        if isinstance(r, Lst): return seq_getitem(eng, r.segs, k)
        if isinstance(r, Obj) and hasattr(r.cls, "__getitem__"): return eng.call_method(o, "__getitem__", [k], {})
        if isinstance(r, Obj): eng.raise_(TypeError, "not subscriptable")
    if isinstance(o, SMap):
        k = eng.resolve(k)
        if not isinstance(k, (str, SStr)): eng.raise_(KeyError, k)
        if eng.branch(o.has(k)): return o.get(k)
        eng.raise_(KeyError, k)
    if isinstance(o, (SList, SSeqV)): return seq_getitem(eng, eng.iter_segs(o), k)
    if isinstance(o, (list, tuple)):
        k = eng.resolve(k)
        if isinstance(k, int):
            try: return o[k]
            except IndexError: eng.raise_(IndexError, "index out of range")
        return seq_getitem(eng, [Unit(x) for x in o], k)
    if isinstance(o, (str, SStr)):
        k = eng.resolve(k)
        if isinstance(o, str) and isinstance(k, int):
            try: return o[k]
            except IndexError: eng.raise_(IndexError, "string index out of range")
        n = zi(eng.strlen(o))
        if not isinstance(k, (int, SInt)): eng.raise_(TypeError, "string indices must be integers")
        i = eng.it(k)
        pos = z3.If(i < 0, i + n, i)
        if not eng.branch(z3.And(pos >= 0, pos < n)): eng.raise_(IndexError, "string index out of range")
        if eng.strings != "abs": return SStr(z3.SubString(eng.st(o), pos, 1))
        return SStr(eng.app("charat", (eng.st(o), z3.simplify(i)), AStr))
    if isinstance(o, SObj) and isinstance(o.td, TAbs) and "__getitem__" in o.td.methods:
        return o.td.methods["__getitem__"](eng, o, [k], {})
    if o is None or isinstance(o, (SInt, SBool, SEnum, int, SObj)): eng.raise_(TypeError, "object is not subscriptable")
    if inspect.isclass(o) and issubclass(o, enum.Enum) and isinstance(k, str):
        return eng.native(lambda: o[k], [], {})
    if isinstance(o, SV): raise Undecided(f"subscript of {o!r}")
    if eng.is_concrete(k): return eng.native(lambda: o[k], [], {})
    raise Undecided("subscript")


def seq_getitem(eng, segs, k):
    k = eng.resolve(k)
    if not isinstance(k, (int, SInt, SBool)): eng.raise_(TypeError, "list indices must be integers")
    segs = [s for s in segs if not (isinstance(s, Span) and isinstance(s.n, int) and s.n == 0)]
    if isinstance(k, int) and k < 0:
        # from the end
        i = -k
        if all(isinstance(s, Unit) for s in segs[-i:]) and len(segs) >= i:
            return segs[-i].v
    if isinstance(k, int) and k >= 0:
        if len(segs) > k and all(isinstance(s, Unit) for s in segs[:k + 1]): return segs[k].v
    if any(isinstance(s, FM) for s in segs):
        return fm_getitem(eng, segs, k)
    n = eng.seq_len(segs)
    if isinstance(n, int) and isinstance(k, int):
        if not -n <= k < n: eng.raise_(IndexError, "list index out of range")
        return eng.seq_index(segs, k % n)
    i = eng.it(k)
    if isinstance(k, int): pos = zi(k) if k >= 0 else zi(n) + k
    else:
        pos = z3.If(i < 0, i + zi(n), i)
        if not eng.feasible([i < 0]): pos = i
    pos = z3.simplify(pos)
    if not eng.branch(z3.And(pos >= 0, pos < zi(n))): eng.raise_(IndexError, "list index out of range")
    return eng.seq_index(segs, pos)


def fm_getitem(eng, segs, k):
    """first element of a filtered list"""
    if k != 0 or isinstance(k, SV): raise Undecided("index into filtered list")
    for s in segs:
        if isinstance(s, Unit): return s.v
        if isinstance(s, Span):
            if eng.branch(zi(s.n) > 0): return s.nth(z3.IntVal(0))
            continue
        if not isinstance(s, FM): raise Undecided("index")
        known = eng.fm_prefix(s, create=False) if (eng.fmlens or eng.fm_defs) and all(isinstance(x, Unit) for _, ss in s.cases(z3.Int("fm.j")) for x in ss) else None
        w = eng.fresh("w", I)
        ne = lambda j: zb(zor([zand([c, zor([True if isinstance(x, Unit) else zi(x.n) > 0 for x in ss])]) for c, ss in s.cases(j)]))
        j = eng._qvar()
        if known is not None:
            some = eng.branch(known(zi(s.n)) > 0)
            if some: eng.assume(z3.And(w >= 0, w < zi(s.n), ne(w)))
        else: some = eng.decide([z3.And(w >= 0, w < zi(s.n), ne(w)), z3.BoolVal(True)]) == 0
        if some:
            eng.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.Not(ne(j)))))
            cs = [(c, ss) for c, ss in s.cases(w)]
            i = eng.decide([zb(c) for c, _ in cs])
            ss = cs[i][1]
            if not ss: raise PathInfeasible()
            x = ss[0]
            if isinstance(x, Unit): return x.v
            raise Undecided("nested filtered list")
        eng.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(s.n)), z3.Not(ne(j)))))
    eng.raise_(IndexError, "list index out of range")


def getslice(eng, o, sl):
    lo, hi, st = sl.start, sl.stop, sl.step
    if st not in (None, 1):
        if st == -1 and lo is None and hi is None:
            segs = eng.iter_segs(o)
            return eng.alloc(Lst(reverse_segs(segs)))
        raise Undecided("slice step")
    if isinstance(o, (str, SStr)):
        if isinstance(o, str) and not isinstance(lo, SV) and not isinstance(hi, SV): return o[lo:hi]
        if eng.strings != "abs":
            n = z3.Length(eng.st(o))
            def clip(x, d):
                if x is None: return d
                x = eng.it(x)
                x = z3.If(x < 0, z3.If(x + n < 0, 0, x + n), z3.If(x > n, n, x))
                return z3.simplify(x)
            a, b = clip(lo, z3.IntVal(0)), clip(hi, n)
            return SStr(z3.SubString(eng.st(o), a, z3.If(b > a, b - a, 0)))
        ts = [eng.st(o)]
        if eng.is_concrete([lo, hi]):
            rx_ = slice_rx(lo, hi)
            if rx_ and isinstance(o, SStr):
                from . import extract
                x = extract.extract(eng, o, lambda: extract.marked(rx_, 1), lambda z: z[lo:hi], f"slice {lo}:{hi}")
                if x is not None: return x
            key = f"slice@{lo}:{hi}"
            f = eng.fn(key, AStr, AStr)
            eng.str_preds[key] = (f, lambda s: s[lo:hi])
            return SStr(f(eng.st(o)))
        for x, d in ((lo, 0), (hi, 10 ** 9)): ts.append(eng.it(d if x is None else x))
        return SStr(eng.app("slice", tuple(ts), AStr))
    if isinstance(o, (list, tuple)) and not isinstance(lo, SV) and not isinstance(hi, SV):
        r = o[lo:hi]
        return r if isinstance(r, tuple) else eng.new_list(r)
    segs = [s for s in eng.iter_segs(o)]
    if all(isinstance(s, Unit) for s in segs) and not isinstance(lo, SV) and not isinstance(hi, SV):
        return eng.alloc(Lst(segs[lo:hi]))
    if len(segs) == 1 and isinstance(segs[0], Span):
        s = segs[0]
        n = zi(s.n)
        def clip(x, d):
            if x is None: return d
            x = eng.it(x)
            return z3.simplify(z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x)))
        a, b = clip(lo, z3.IntVal(0)), clip(hi, n)
        ln = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
        return eng.alloc(Lst([Span(ln, lambda i: s.nth(z3.simplify(zi(i) + a)))]))
    if isinstance(lo, int) and lo >= 0 and hi is None and all(isinstance(x, Unit) for x in segs[:lo]) and len(segs) >= lo:
        return eng.alloc(Lst(segs[lo:]))
    if lo is None and isinstance(hi, int) and hi < 0 and all(isinstance(x, Unit) for x in segs[hi:]) and len(segs) >= -hi:
        return eng.alloc(Lst(segs[:hi]))
    raise Undecided("slice")


def setitem(eng, o, k, v):
    if isinstance(o, Ref):
        r = eng.heap[o.id]
        if isinstance(r, Dct):
            k = eng.resolve(k)
            puts = r.puts
            if isinstance(k, str):
                # replace in place of an equal literal key (keeps the insertion order)
                if all(isinstance(p, tuple) and isinstance(p[0], str) for p in puts):
                    for i, p in enumerate(puts):
                        if p[0] == k:
                            eng.heap[o.id] = Dct(r.base, puts[:i] + ((k, v),) + puts[i + 1:], r.default)
                            return
            eng.heap[o.id] = Dct(r.base, puts + ((k, v),), r.default)
            return
        if isinstance(r, Lst):
            k = eng.resolve(k)
            if isinstance(k, int) and all(isinstance(s, Unit) for s in r.segs):
                l = list(r.segs)
                try: l[k] = Unit(v)
                except IndexError: eng.raise_(IndexError, "assignment index out of range")
                eng.heap[o.id] = Lst(l)
                return
        if isinstance(r, Obj) and hasattr(r.cls, "__setitem__"):
            eng.call_method(o, "__setitem__", [k, v], {})
            return
    raise Undecided(f"item assignment on {o!r}")


def delitem(eng, o, k):
    if isinstance(o, Ref):
        r = eng.heap[o.id]
        if isinstance(r, Dct):
            k = eng.resolve(k)
            dict_lookup(eng, r, k, lambda: eng.raise_(KeyError, k))
            r = eng.heap[o.id]
            eng.heap[o.id] = Dct(r.base, r.puts + ((_Del(k), None),), r.default)
            return
        if isinstance(r, Lst) and isinstance(k, slice) and k.stop is None and k.step is None and not isinstance(k.start, SV) and k.start == -1:
            # the last element, if there is one
            if eng.branch(zb(eng.truth_val(o))): list_method(eng, o, eng.heap[o.id], "pop", [], {})
            return
        if isinstance(r, Lst) and isinstance(k, int):
            list_method(eng, o, r, "pop", [k], {})
            return
    raise Undecided("del item")


def dictcomp(eng, e, fid):
    return None


# --------------------------------------------------------------- builtins ----
def isinstance_(eng, v, cls):
    """bool or z3 Bool"""
    if isinstance(v, Poison): raise PoisonRead(v.loc)
    if isinstance(v, SUnion): return zor([zand([c, isinstance_(eng, x, cls)]) for c, x in v.cases])
    cls = eng.resolve(cls)
    if isinstance(cls, tuple): return zor([isinstance_(eng, v, c) for c in cls])
    if isinstance(cls, SObj) and isinstance(cls.td, TAbs) and "__instancecheck__" in cls.td.methods:
        return eng.truth_val(cls.td.methods["__instancecheck__"](eng, cls, [v], {}))
    if isinstance(cls, SV): raise Undecided("isinstance with symbolic class")
    if isinstance(cls, types.UnionType): return zor([isinstance_(eng, v, c) for c in cls.__args__])
    if cls is object: return True
    def conc(c): return issubclass(c, cls)
    if isinstance(v, SInt): return conc(int)
    if isinstance(v, SBool): return conc(bool)
    if isinstance(v, SStr): return conc(str)
    if isinstance(v, SEnum): return conc(v.cls)
    if isinstance(v, (SList, SSeqV)): return conc(list)
    if isinstance(v, SMap): return conc(dict)
    if isinstance(v, SRec): return conc(v.cls)
    if isinstance(v, SObj):
        if isinstance(v.td, TAbs):
            h = v.td.methods.get("__isinstance__")
            if h: return eng.truth_val(h(eng, v, [cls], {}))
            if v.td.cls is None: raise Undecided(f"isinstance of abstract {v.td.name}")
            cs = v.td.cls if isinstance(v.td.cls, tuple) else (v.td.cls,)
            return any(issubclass(c, cls) for c in cs)
        yes = [c for c in v.td.concrete if issubclass(c, cls)]
        if len(yes) == len(v.td.concrete): return True
        if not yes: return False
        return zor([eng.tag(v.t) == tag_of(c) for c in yes])
    if isinstance(v, Ref):
        r = eng.heap[v.id]
        if isinstance(r, Obj): return conc(r.cls)
        if isinstance(r, Lst): return conc(list)
        if isinstance(r, Dct): return conc(collections.defaultdict if r.default is not None else dict)
        if isinstance(r, Set_): return conc(set)
    if isinstance(v, Opaque): raise Undecided("isinstance of opaque value")
    if isinstance(v, (Closure, SFun, Bound, BMeth)): 
        if cls in (types.FunctionType,): return isinstance(v, Closure)
        return False
    if isinstance(v, SV): raise Undecided(f"isinstance {v!r}")
    return isinstance(v, cls)


def install(eng):
    eng.cats = {}
    eng.foldkeys = {}
    eng.joins = []
    eng.keep = []
    eng.hooks = {}
    M = eng.models

    def quantify_c(n, body, exists):
        """closed quantifier over a pure formula-building body"""
        if isinstance(n, int) or z3.is_int_value(zi(n)):
            m = n if isinstance(n, int) else n.as_long()
            fs = [body(z3.IntVal(i)) for i in range(m)]
            return zor(fs) if exists else zand(fs)
        j = eng._qvar()
        def th():
            eng.assume(z3.And(j >= 0, j < n))
            return body(j)
        outs = eng.explore(th, push_idx=j)
        cs = []
        for o in outs:
            if o.kind != "ok": raise Undecided("impure quantified body")
            cs.append(zand(o.pc + [o.val]))
        f = zb(zor(cs))
        return z3.Exists([j], z3.And(j >= 0, j < n, f)) if exists else z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), f))
    eng.quantify_c = quantify_c

    def reg(*fs):
        def deco(h):
            for f in fs: M[f] = h
            return h
        return deco

    @reg(len)
    def _(e, a, k): return e.length(a[0])

    @reg(isinstance)
    def _(e, a, k): return e.to_bool_value(isinstance_(e, a[0], a[1]))

    @reg(issubclass)
    def _(e, a, k):
        x, c = e.resolve(a[0]), e.resolve(a[1])
        if isinstance(x, SV) or isinstance(c, SV):
            if isinstance(x, SObj) and isinstance(x.td, TAbs) and "__issubclass__" in x.td.methods:
                return x.td.methods["__issubclass__"](e, x, [c], {})
            raise Undecided("issubclass")
        return e.native(issubclass, [x, c], {})

    @reg(enumerate)
    def _(e, a, k):
        st = a[1] if len(a) > 1 else k.get("start", 0)
        segs, out, off = e.iter_segs(a[0]), [], e.it(st) if isinstance(st, SV) else st
        for s in segs:
            if isinstance(s, Unit):
                out.append(Unit((e.mkint(off) if z3.is_expr(off) else off, s.v)))
                off = off + 1
            elif isinstance(s, Span):
                out.append(Span(s.n, lambda i, s=s, off=off: (e.mkint(zi(i) + off), s.nth(i))))
                off = off + s.n
            elif isinstance(s, FM):
                before = e.fm_prefix(s)
                def cases(j, s=s, off=off):
                    res = []
                    for c, us in s.cases(j):
                        if len(us) > 1 or not all(isinstance(u, Unit) for u in us): raise Undecided("enumerate filtered list")
                        res.append((c, [Unit((e.mkint(before(zi(j)) + off), u.v)) for u in us]))
                    return res
                out.append(FM(s.n, cases))
                off = off + before(zi(s.n))
            else: raise Undecided("enumerate filtered list")
        return e.alloc(Lst(out))

    @reg(zip)
    def _(e, a, k):
        ss = [e.iter_segs(x) for x in a]
        if all(all(isinstance(s, Unit) for s in x) for x in ss):
            return e.new_list([tuple(u.v for u in t) for t in zip(*ss)])
        if all(len(x) == 1 and isinstance(x[0], Span) for x in ss):
            n = zi(ss[0][0].n)
            for x in ss[1:]: n = z3.If(zi(x[0].n) < n, zi(x[0].n), n)
            return e.alloc(Lst([Span(z3.simplify(n), lambda i: tuple(x[0].nth(i) for x in ss))]))
        # one may be empty
        if any(len(x) == 0 for x in ss): return e.new_list([])
        raise Undecided("zip")

    @reg(range)
    def _(e, a, k):
        a = [e.resolve(x) for x in a]
        if e.is_concrete(a): return range(*a)
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) == 3 and a[2] == -1:
            n = e.it(lo) - e.it(hi)
            n = z3.simplify(z3.If(n > 0, n, 0))
            return e.alloc(Lst([Span(n, lambda i: e.mkint(e.it(lo) - zi(i)))]))
        if len(a) == 3 and a[2] != 1: raise Undecided("range step")
        n = e.it(hi) - e.it(lo)
        n = z3.simplify(z3.If(n > 0, n, 0))
        return e.alloc(Lst([Span(n, lambda i: e.mkint(e.it(lo) + zi(i)))]))

    @reg(reversed)
    def _(e, a, k): return e.alloc(Lst(reverse_segs(e.iter_segs(a[0]))))

    @reg(str)
    def _(e, a, k):
        if not a: return ""
        return to_str(e, a[0] if not isinstance(a[0], SUnion) else a[0])

    @reg(repr)
    def _(e, a, k):
        v = e.resolve(a[0])
        if e.is_concrete(v): return repr(v)
        return SStr(e.fresh("repr", e.S))

    @reg(bool)
    def _(e, a, k): return e.to_bool_value(e.truth_val(a[0])) if a else False

    @reg(int)
    def _(e, a, k):
        v = e.resolve(a[0]) if a else 0
        if isinstance(v, (SInt,)): return v
        if isinstance(v, SBool): return e.mkint(e.it(v))
        if not isinstance(v, SV): return e.native(int, [v] + a[1:], k)
        if isinstance(v, SStr) and len(a) == 1 and not k and e.strings == "abs":
            if not e.branch(is_int(e, v)): e.raise_(ValueError, "invalid literal for int()")
            t, r = intval(e, v)
            # CPython refuses to convert more than 4300 digits
            if not r and e.branch(z3.And(zi(e.strlen(v)) > INT_DIGITS, e.app("int() refuses", (v.t,), B))):
                e.raise_(ValueError, "Exceeds the limit (4300 digits) for integer string conversion")
            return SInt(t)
        raise Undecided("int() of symbolic value")

    @reg(decimal.Decimal)
    def _(e, a, k):
        v = e.resolve(a[0]) if a else 0
        if isinstance(v, SInt) and len(a) == 1 and not k: return v
        if not isinstance(v, SV): return e.native(decimal.Decimal, [v] + a[1:], k)
        if isinstance(v, SStr) and len(a) == 1 and not k and e.strings == "abs":
            if not e.branch(is_int(e, v)):
                if no_such_text(e): raise PathInfeasible()
                raise Undecided("Decimal() of a text that is not an integer")
            return SInt(intval(e, v)[0])
        raise Undecided("Decimal() of symbolic value")

    @reg(float)
    def _(e, a, k):
        v = e.resolve(a[0]) if a else 0.0
        if not isinstance(v, SV): return e.native(float, [v], k)
        if isinstance(v, SStr) and not k and e.strings == "abs":
            e.str_auto["float()"] = lang.float_auto
            if not e.branch(e.str_pred("float()", v, pyfloat)): e.raise_(ValueError, "could not convert string to float")
            return SFloat(v.t)
        raise Undecided("float() of symbolic value")

    @reg(getattr)
    def _(e, a, k):
        n = e.resolve(a[1])
        if isinstance(n, SStr): raise Undecided("getattr symbolic name")
        return e.getattr(a[0], n, a[2] if len(a) > 2 else None, len(a) > 2)

    @reg(hasattr)
    def _(e, a, k):
        n = e.resolve(a[1])
        if isinstance(n, SStr): raise Undecided("hasattr symbolic name")
        return e.getattr(a[0], n, _MISSING, True) is not _MISSING

    @reg(setattr)
    def _(e, a, k):
        n = e.resolve(a[1])
        if isinstance(n, SStr): raise Undecided("setattr symbolic name")
        e.setattr(a[0], n, a[2])

    @reg(type)
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, SInt): return int
        if isinstance(v, SStr): return str
        if isinstance(v, SBool): return bool
        if isinstance(v, SEnum): return v.cls
        if isinstance(v, SObj):
            if isinstance(v.td, TAbs):
                if "__class__" in v.td.attrs: return e.sobj_attr(v, "__class__")
                if v.td.cls is not None and not isinstance(v.td.cls, tuple): return v.td.cls
                raise Undecided("type of abstract")
            return e.sobj_attr(v, "__class__")
        if isinstance(v, Ref):
            r = e.heap[v.id]
            return r.cls if isinstance(r, Obj) else list if isinstance(r, Lst) else dict if isinstance(r, Dct) else set
        if isinstance(v, SRec): return v.cls
        if isinstance(v, (SList, SSeqV)): return list
        if isinstance(v, SMap): return dict
        if isinstance(v, SV): raise Undecided("type")
        return type(v)

    @reg(id)
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, (SObj, Opaque)): return SInt(e.app("id", (v.t,), I))
        if isinstance(v, Ref): return v.id + 10 ** 9
        return id(v)

    @reg(callable)
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, (SFun, Bound, BMeth, Closure)): return True
        if isinstance(v, SObj) and isinstance(v.td, TAbs): return "__call__" in v.td.methods
        if isinstance(v, (SInt, SBool, SStr, SEnum, SList, SMap, SSeqV)): return False
        if isinstance(v, SObj): return all(hasattr(c, "__call__") for c in v.td.concrete) if len({hasattr(c, '__call__') for c in v.td.concrete}) == 1 else e.raise_undecided()
        if isinstance(v, Ref):
            r = e.heap[v.id]
            return hasattr(r.cls, "__call__") if isinstance(r, Obj) else False
        if isinstance(v, SV): raise Undecided("callable")
        return callable(v)

    @reg(sorted)
    def _(e, a, k):
        segs = e.iter_segs(a[0])
        if all(isinstance(s, Unit) for s in segs):
            vs = [s.v for s in segs]
            if len(vs) <= 1: return e.new_list(vs)
            return e.new_list(sort_units(e, segs, k))
        raise Undecided("sorted of symbolic list")

    @reg(list)
    def _(e, a, k): return e.alloc(Lst(e.iter_segs(a[0]) if a else ()))

    @reg(iter)
    def _(e, a, k): return e.alloc(Lst(e.iter_segs(a[0])))

    @reg(tuple)
    def _(e, a, k):
        if not a: return ()
        segs = e.iter_segs(a[0])
        if all(isinstance(s, Unit) for s in segs): return tuple(s.v for s in segs)
        return e.alloc(Lst(segs))

    def mkset(e, a, k):
        if not a: return e.alloc(Set_(()))
        v = e.resolve(a[0])
        if isinstance(v, (set, frozenset)): return e.alloc(Set_(tuple(v)))
        if isinstance(v, Ref) and isinstance(e.heap[v.id], Set_): return e.alloc(e.heap[v.id])
        segs = e.iter_segs(v)
        s = Set_(tuple(u.v for u in segs if isinstance(u, Unit)), tuple(seg_pred(e, u) for u in segs if not isinstance(u, Unit)))
        return e.alloc(s)
    M[set] = mkset
    M[frozenset] = mkset

    @reg(dict)
    def _(e, a, k):
        if not a: return e.alloc(Dct(None, list(k.items())))
        v = e.resolve(a[0])
        if isinstance(v, Ref) and isinstance(e.heap[v.id], Dct):
            r = e.heap[v.id]
            return e.alloc(Dct(r.base, r.puts + tuple(k.items()), None))
        if isinstance(v, SMap): return e.alloc(Dct(v, tuple(k.items())))
        if isinstance(v, dict): return e.alloc(Dct(None, list(v.items()) + list(k.items())))
        out = e.alloc(Dct(None, ()))
        def body(x):
            kk, vv = e.unpack(x, 2)
            e.setitem(out, kk, vv)
        e.run_loop(v, body, ("dict()", id(a)))
        return out

    @reg(collections.defaultdict)
    def _(e, a, k): return e.alloc(Dct(None, (), a[0] if a else None))

    @reg(functools.partial)
    def _(e, a, k):
        f, pre, kw = a[0], list(a[1:]), dict(k)
        return SFun(lambda e, a2, k2: e.call(f, pre + list(a2), {**kw, **k2}), "partial")

    @reg(calendar.isleap)
    def _(e, a, k):
        y = e.it(a[0])
        return e.to_bool_value(z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0)) if z3.is_expr(y) else calendar.isleap(y))

    @reg(collections.OrderedDict)
    def _(e, a, k): return M[dict](e, a, k)

    def mm(is_max):
        def h(e, a, k):
            key = k.get("key")
            if len(a) == 1:
                segs = e.iter_segs(a[0])
                if not all(isinstance(s, Unit) for s in segs):
                    if any(isinstance(s, CarriedSeg) for s in segs): raise Undecided("max")
                    return maxfold(e, segs, is_max, k)
                vs = [s.v for s in segs]
                if not vs:
                    if "default" in k: return k["default"]
                    e.raise_(ValueError, "empty sequence")
            else: vs = list(a)
            vs = [e.resolve(v) for v in vs]
            ks = [e.resolve(e.call(key, [v], {})) if key is not None else v for v in vs]
            if all(not isinstance(x, SV) for x in ks):
                f = max if is_max else min
                i = f(range(len(ks)), key=lambda i: ks[i])
                return vs[i]
            if all(isinstance(x, (int, SInt, SBool)) for x in ks) and key is None:
                t = e.it(ks[0])
                for x in ks[1:]:
                    y = e.it(x)
                    t = z3.If(y > t, y, t) if is_max else z3.If(y < t, y, t)
                return e.mkint(t)
            best = 0
            for i in range(1, len(ks)):
                if any(not isinstance(x, (int, SInt, SBool)) for x in (ks[i], ks[best])): raise Undecided("max")
                x, y = e.it(ks[i]), e.it(ks[best])
                if e.branch(x > y if is_max else x < y): best = i
            return vs[best]
        return h
    M[max] = mm(True)
    M[min] = mm(False)

    def maxfold(e, segs, is_max, k):
        """max over a symbolic integer sequence, characterised by bound + witness"""
        if k.get("key") is not None: raise Undecided("max with key")
        n = e.seq_len(segs)
        if len(segs) == 1 and isinstance(segs[0], Span):
            s = segs[0]
            if not e.branch(zi(s.n) > 0):
                if "default" in k: return k["default"]
                e.raise_(ValueError, "empty sequence")
            w = e.fresh("mw", I)
            j = e._qvar()
            val = lambda i: e.it(e.resolve_pure(s.nth(i)))
            e.assume(z3.And(w >= 0, w < zi(s.n)))
            m = val(w)
            cmpf = (lambda x: x <= m) if is_max else (lambda x: x >= m)
            e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(s.n)), cmpf(val(j)))))
            return SInt(m)
        raise Undecided("max of sequence")

    def resolve_pure(v):
        if isinstance(v, SUnion):
            t = None
            for c, x in reversed(v.cases):
                y = eng.it(resolve_pure(x))
                t = y if t is None else z3.If(zb(c), y, t)
            return SInt(t)
        return v
    eng.resolve_pure = resolve_pure

    @reg(sum)
    def _(e, a, k):
        segs = e.iter_segs(a[0])
        tot = a[1] if len(a) > 1 else 0
        acc = [tot]
        if all(isinstance(s, Unit) for s in segs):
            for s in segs: tot = binop(e, ast.Add(), tot, s.v)
            return tot
        raise Undecided("sum")

    @reg(print)
    def _(e, a, k): return None

    def quant(want):
        def h(e, a, k):
            segs = e.iter_segs(a[0])
            out = []
            for s in segs:
                if isinstance(s, Unit): out.append(e.truth_val(s.v))
                elif isinstance(s, Span): out.append(e.quantify_c(zi(s.n), lambda j: e.truth_val(s.nth(j)), want))
                elif isinstance(s, FM):
                    def body(j, s=s):
                        r = []
                        for c, ss in s.cases(j):
                            ts = []
                            for u in ss:
                                if not isinstance(u, Unit): raise Undecided("any/all nested")
                                ts.append(e.truth_val(u.v))
                            r.append(zand([c, zor(ts) if want else zand(ts)]))
                        return zor(r)
                    out.append(e.quantify_c(zi(s.n), body, want))
                else: raise Undecided("any/all of accumulating list")
            return e.to_bool_value(zor(out) if want else zand(out))
        return h
    M[any] = quant(True)
    M[all] = quant(False)

    @reg(next)
    def _(e, a, k):
        segs = e.iter_segs(a[0])
        try:
            v = seq_getitem(e, segs, 0)
        except PyRaise:
            if len(a) > 1: return a[1]
            e.raise_(StopIteration)
        return v

    @reg(map)
    def _(e, a, k):
        out = e.new_list([])
        if len(a) != 2: raise Undecided("map")
        def body(v):
            x = e.call(a[0], [v], {})
            e.heap[out.id] = Lst(e.heap[out.id].segs + (Unit(x),))
        e.run_loop(a[1], body, ("map", 0))
        return out

    @reg(filter)
    def _(e, a, k):
        out = e.new_list([])
        def body(v):
            t = e.truth(v) if e.resolve(a[0]) is None else e.truth(e.call(a[0], [v], {}))
            if t: e.heap[out.id] = Lst(e.heap[out.id].segs + (Unit(v),))
        e.run_loop(a[1], body, ("filter", 0))
        return out

    @reg(abs)
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, SInt): return SInt(z3.If(v.t < 0, -v.t, v.t))
        return e.native(abs, [v], {})

    @reg(ord)
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, str): return e.native(ord, [v], {})
        if isinstance(v, SStr): return SInt(e.app("ord", (e.st(v),), I))
        raise Undecided("ord")

    @reg(dir)
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, SObj) and not isinstance(v.td, TAbs):
            cs = v.td.concrete
            if len(cs) > 1: v, cs = v, [cs[e.decide_first([e.tag(v.t) == tag_of(c) for c in cs])]]
            return e.new_list(sorted(set(dir(cs[0])) | set(fields_of(cs[0]))))
        if isinstance(v, Ref) and isinstance(e.heap[v.id], Obj):
            r = e.heap[v.id]
            return e.new_list(sorted(set(dir(r.cls)) | set(r.fields)))
        if isinstance(v, SObj) and "__dir__" in v.td.methods: return v.td.methods["__dir__"](e, v, [], {})
        if isinstance(v, SV): raise Undecided("dir")
        return e.new_list(dir(v))

    @reg(vars)
    def _(e, a, k): raise Undecided("vars")

    # regular expressions on symbolic subjects: one uninterpreted predicate per (function, pattern)
    def rx(fname):
        def h(e, a, k):
            pat, s = e.resolve(a[0]), e.resolve(a[1])
            flags = 0
            if len(a) > 2 or k:
                fl = e.resolve(a[2] if len(a) > 2 else k.get("flags"))
                if len(a) > 3 or isinstance(fl, SV) or fl is None or isinstance(pat, re.Pattern): raise Undecided("re arguments")
                flags = int(fl)
            if isinstance(pat, re.Pattern):
                pat, flags = pat.pattern, pat.flags & ~int(re.UNICODE)
            if isinstance(pat, str) and isinstance(s, str): return e.native(getattr(re, fname), [pat, s, flags], {})
            if not isinstance(s, (str, SStr)): e.raise_(TypeError, "expected string")
            if isinstance(pat, str):
                f = getattr(re, fname)
                nm = f"re.{fname}@{flags}@{pat}"
                e.str_auto[nm] = lambda: lang.ReAuto(pat, fname, flags)
                c = e.str_pred(nm, s, lambda x: f(pat, x, flags) is not None)
                def group(e_, o, aa, kk):
                    i = e_.resolve(aa[0]) if aa else 0
                    if kk or len(aa) > 1 or not isinstance(i, (int, str)): raise Undecided("match.group arguments")
                    cp = re.compile(pat, flags)
                    if isinstance(i, str): i = cp.groupindex[i]
                    if isinstance(s, SStr) and e_.strings == "abs" and i > 0:
                        from . import extract
                        x = extract.extract(e_, s, lambda: extract.marked(pat, i, fname, flags), lambda z: f(pat, z, flags).group(i), f"{nm}#{i}")
                        if x is not None: return x
                    if isinstance(s, SStr) and i == 0 and fname == "fullmatch": return s
                    none = e_.app("group?none", (o.t, e_.it(i)), B)
                    return SUnion([(none, None), (z3.Not(none), SStr(e_.app("group", (o.t, e_.it(i)), e_.S)))])
                def groups(e_, o, aa, kk):
                    return tuple(group(e_, o, [j + 1], {}) for j in range(re.compile(pat, flags).groups))
                return SUnion([(znot(c), None), (c, SObj(e.app(f"match@{fname}@{flags}@{pat}", (e.st(s),), U), TAbs("match", methods={"group": group, "groups": groups})))])
            c = e.app("re." + fname, (e.st(pat), e.st(s)), B)
            return SUnion([(z3.Not(c), None), (c, SObj(e.app("match." + fname, (e.st(pat), e.st(s)), U), TAbs("match")))])
        return h
    for n in ("match", "fullmatch", "search"): M[getattr(re, n)] = rx(n)

    def raise_undecided(): raise Undecided("library model")
    eng.raise_undecided = raise_undecided
    M[copy.copy] = lambda e, a, k: shallow(e, a[0])
    M[copy.deepcopy] = lambda e, a, k: raise_undecided()

    def shallow(e, v):
        v = e.resolve(v)
        if isinstance(v, Ref):
            r = e.heap[v.id]
            if isinstance(r, Obj): return e.alloc(Obj(r.cls, dict(r.fields), r.sym))
            return e.alloc(r)
        if isinstance(v, (SList, SSeqV)): return e.alloc(Lst(e.iter_segs(v)))
        return v

    def strfun(name, f):
        def h(e, a, k):
            v = e.resolve(a[0])
            if isinstance(v, str) or k or len(a) > 1: return e.native(f, a, k)
            if e.strings != "abs" or not isinstance(v, SStr): raise Undecided(name)
            g = e.fn(name, AStr, AStr)
            e.str_preds[name] = (g, f)
            return SStr(g(v.t))
        return h
    import html
    M[html.escape] = strfun("html.escape", html.escape)

    @reg(open)
    def _(e, a, k): raise Undecided("open")
