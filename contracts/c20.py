"""C20: test case filters."""
import fnmatch, re
from pyvc.spec import check
from pyvc.values import *
from pyvc.tds import TStr, TAbs
from pyvc.driver import Obligation
from pyvc.engine import Undecided
from aas_test_engines.config import TestCaseFilter
from aas_test_engines.exception import InvalidFilterException


# ------------------------------------------------ shell wildcards, written out
def cls_end(p, i):
    """index of the bracket closing the set opened at p[i], or None"""
    j = i + 1
    if j < len(p) and p[j] == "!": j += 1
    if j < len(p) and p[j] == "]": j += 1
    while j < len(p) and p[j] != "]": j += 1
    return j if j < len(p) else None


def in_set(body, c):
    k = 0
    while k < len(body):
        if k + 2 < len(body) and body[k + 1] == "-":
            if body[k] <= c <= body[k + 2]: return True
            k += 3
        else:
            if body[k] == c: return True
            k += 1
    return False


def wild(p, s):
    """shell-style wildcard pattern p matches the whole name s"""
    if p == "": return s == ""
    if p[0] == "*": return any(wild(p[1:], s[k:]) for k in range(len(s) + 1))
    if p[0] == "?": return s != "" and wild(p[1:], s[1:])
    if p[0] == "[":
        e = cls_end(p, 0)
        if e is not None:
            body = p[1:e]
            neg = body.startswith("!")
            return s != "" and in_set(body[1:] if neg else body, s[0]) != neg and wild(p[e + 1:], s[1:])
    return s != "" and s[0] == p[0] and wild(p[1:], s[1:])


def given(text): return [p for p in text.split(":") if p.strip()]


def h(pattern, name):
    parts = pattern.split("~")
    try:
        f = TestCaseFilter(pattern)
    except InvalidFilterException:
        check("a filter with at most one '~' is accepted", len(parts) > 2)
        return
    check("a filter with more than one '~' is rejected", len(parts) <= 2)
    inc = given(parts[0])
    exc = given(parts[1]) if len(parts) == 2 else []
    want = (len(inc) == 0 or any(wild(p, name) for p in inc)) and not any(wild(p, name) for p in exc)
    check("selects exactly the matching names", bool(f.selects(name)) == want)


def glob_contracts(eng):
    """fnmatch by its documented contract: translate(p) compiled matches, and
    fnmatchcase accepts, exactly the names the wildcard p covers"""
    def src(e, p): return e.app("fnmatch.translate", (e.st(p),), AStr)
    def hit(e, t, name): return SBool(e.app("glob.matches", (t, e.st(name)), B))
    def opt(e, t, name):
        m = e.app("glob.matches", (t, e.st(name)), B)
        return e.mk_union([(m, SObj(e.app("glob.match", (t, e.st(name)), U), TAbs("match"))), (z3.Not(m), None)])
    def comp(t): return SObj(t, TAbs("compiled glob", methods={
        "match": lambda e, o, a, k: opt(e, o.t, e.resolve(a[0])), "fullmatch": lambda e, o, a, k: opt(e, o.t, e.resolve(a[0]))}))
    def compile_(e, a, k):
        s = e.resolve(a[0])
        if not isinstance(s, SStr) or len(a) > 1 or k: raise Undecided("re.compile")
        if not (z3.is_app(s.t) and s.t.decl().name() == "fnmatch.translate"): raise Undecided("re.compile of another text")
        return comp(e.app("re.compile", (s.t,), U))
    def tr(e, a, k): return SStr(src(e, e.resolve(a[0])))
    def cased(e, a, k): return hit(e, e.app("re.compile", (src(e, e.resolve(a[1])),), U), e.resolve(a[0]))
    eng.models[fnmatch.translate] = tr
    eng.models[re.compile] = compile_
    eng.models[fnmatch.fnmatchcase] = cased
    eng.models[fnmatch.fnmatch] = cased
    eng.models[wild] = lambda e, a, k: cased(e, [a[1], a[0]], k)


NAMES = [" ", "\t", "GetSubmodel", "GetAllSubmodels", "GetSubmodelById", "PutSubmodel", "A", "", "a", "Get", "GetSubmodel\n", "x.y", "[a]"]
PATS = ["*", "Get*", "*Submodel*", "GetSubmodel", "?etSubmodel", "Get", "*ById", "[GP]*", "[!G]*", "[A-F]*", "", " ", "a", "A", "[", "[a", "x.y", "x?y", "*\n", "G**l", "[]]", "\t", "Get* ", "[!]a]"]


def gen(g):
    r = g.r
    def side(): return ":".join(g.pick(PATS) for _ in range(r.choice([0, 1, 1, 2, 3])))
    k = r.choice([1, 1, 2, 2, 2, 3])
    return ["~".join(side() for _ in range(k)), g.pick(NAMES)]


MODULES = ["aas_test_engines.config"]
OBLIGATIONS = [Obligation("TestCaseFilter", h, [("pattern", TStr()), ("name", TStr())], setup=glob_contracts, gen=gen)]
ASSUMPTIONS = ["fnmatch.translate, fnmatch.fnmatchcase and str.split/strip behave as documented (cross-checked against an independent wildcard matcher)"]
