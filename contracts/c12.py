"""C12: constraint checking visits every object and records every violation."""
import copy, dataclasses
from dataclasses import dataclass, field
from typing import List, Optional
import z3
from pyvc.spec import check, assume
from pyvc.values import *
from pyvc.tds import *
from pyvc.driver import Obligation
from pyvc.engine import Undecided, PyRaise, zi, zb
from aas_test_engines.result import AasTestResult, Level
from aas_test_engines.test_cases.v3_0 import parse as P, adapter as A


# ------------------------------------------------ specification vocabulary
def is_data(o): ...
def names(o): ...
def attr(o, n): ...
def fields_of_(o): ...
def breaks(o, n): ...
def level_of(o, n): ...
def visits(): ...
def shown(path): ...


def h_walk(obj, res, path):
    """nested objects, by the contract of the nested call"""
    P.check_constraints(obj, res, path)
    want = []
    if is_data(obj):
        for f in fields_of_(obj):
            v = attr(obj, f.name)
            if isinstance(v, list):
                for i, x in enumerate(v): want.append((x, f.name, i))
            else: want.append((v, f.name, -1))
    check("every attribute and list item is visited exactly once, under its path", visits() == want)


def h_checks(obj, level, path):
    res = AasTestResult("r", level)
    P.check_constraints(obj, res, path)
    if not is_data(obj):
        check("nothing to check", len(res.sub_results) == 0 and res.level == level)
        return
    bad = [n for n in names(obj) if n.startswith("check_") and breaks(obj, n)]
    check("one finding per violated constraint", len(res.sub_results) == len(bad))
    check("each at its own severity", [s.level for s in res.sub_results] == [level_of(obj, n) for n in bad])
    check("and all of them counted", res.level.value >= level.value and all(res.level.value >= level_of(obj, n).value for n in bad))


def nested_ok(v): ...
def checked(): ...


def h_toplevel(t, v, findings, constraints):
    """findings: severity the parser reports; constraints: severity of the constraint check"""
    r, env = P._parse_and_check(t, v)
    if findings.value <= Level.WARNING.value:
        check("constraints of a conforming document are checked once, on the parsed object", checked() == 1 and env is value_of(t, v))
        check("the verdict is that of the worst finding", r.level.value == max(findings.value, constraints.value))
        check("both parts are reported", len(r.sub_results) == 2)
    else:
        check("constraints of a non-conforming document are not checked", checked() == 0)
        check("the result says so", len(r.sub_results) == 2 and "kipped" in r.sub_results[1].message and r.sub_results[1].level == Level.WARNING)
        check("and is not compliant", not r.ok() and r.level == findings)


def value_of(t, v): ...


def h_path(p, x):
    q = p + x
    check("extends the path", q.elements == p.elements + [x])
    check("without touching the original", q is not p and q.elements is not p.elements)


# -------------------------------------------------------------- symbolic side
class Data: pass
DATA = TAbs("object", cls=Data)
FIELD = TAbs("field", attrs={"name": TStr()})


def walk_setup(findings):
    def setup(eng):
        app = eng.app
        M = eng.models
        T = lambda v: eng.resolve(v).t
        def lst(name, t, mk):
            n = app(name + ".n", (t,), I)
            eng.assume(n >= 0)
            return SList(n, lambda i: mk(app(name, (t, zi(i)), eng.S if name == "names" else U)))
        M[dataclasses.is_dataclass] = M[is_data] = lambda e, a, k: SBool(app("is_data", (T(a[0]),), B))
        M[dir] = M[names] = lambda e, a, k: lst("names", T(a[0]), SStr)
        if findings: M[dataclasses.fields] = lambda e, a, k: e.new_list([])
        else: M[dataclasses.fields] = M[fields_of_] = lambda e, a, k: lst("fields", T(a[0]), mkfield)
        def mkfield(t):
            f = SObj(t, FIELD)
            eng.assume(z3.Not(zb(eng.truth_val(eng.call(eng.getattr(eng.getattr(f, "name"), "startswith"), ["check_"], {})))))
            return f
        def call_check(e, o, a, k):
            t, s = o.t.arg(0), o.t.arg(1)
            if e.branch(app("breaks", (t, s), B)):
                raise PyRaise(e.call(P.CheckConstraintException, ["violated", SEnum(Level, app("level", (t, s), I))], {}))
            return None
        def get(e, a, k):
            o = e.resolve(a[0])
            if not (isinstance(o, SObj) and o.td is DATA): return e.getattr(o, e.resolve(a[1])) if len(a) == 2 else old(e, a, k)
            n = e.resolve(a[1])
            s = e.st(n)
            t = o.t
            # names of constraint checks and of attributes are disjoint
            if e.branch(e.truth_val(e.call(e.getattr(n, "startswith"), ["check_"], {}))):
                e.assume(z3.And(app("level", (t, s), I) >= 0, app("level", (t, s), I) < len(list(Level))))
                return SObj(app("fn", (t, s), U), FN)
            v = app("attr", (t, s), U)
            m = app("attr.n", (t, s), I)
            e.assume(m >= 0)
            return e.mk_union([(app("attr.list", (t, s), B), SList(m, lambda i: SObj(app("attr.item", (v, zi(i)), U), DATA))),
                               (z3.Not(app("attr.list", (t, s), B)), SObj(v, DATA))])
        FN = TAbs("check", methods={"__call__": call_check})
        old = M.get(getattr)
        M[getattr] = get
        M[attr] = get
        M[breaks] = lambda e, a, k: SBool(app("breaks", (T(a[0]), e.st(a[1])), B))
        def lv(e, a, k):
            x = app("level", (T(a[0]), e.st(a[1])), I)
            e.assume(z3.And(x >= 0, x < len(list(Level))))
            return SEnum(Level, x)
        M[level_of] = lv
        ghost = eng.new_list([])
        depth = [0]
        def nested(e, a, k):
            if depth[0] == 0:
                depth[0] = 1
                try: return e.call_pyfunc(P.check_constraints, a, k)
                finally: depth[0] = 0
            p = a[2] if len(a) > 2 else k.get("path")
            els = e.getattr(p, "elements")
            segs = e.heap[els.id].segs
            if not (len(segs) in (2, 3) and isinstance(segs[0], Span) or len(segs) in (1, 2)): raise Undecided("path")
            tail = [s.v for s in segs if isinstance(s, Unit)]
            e.call(e.getattr(ghost, "append"), [(a[0], tail[0], tail[1] if len(tail) > 1 else -1)], {})
            return None
        M[P.check_constraints] = nested
        M[visits] = lambda e, a, k: ghost
    return setup


SINK = TAbs("sink", methods={"append": lambda e, o, a, k: None})


def mk_path(e):
    p = e.call(A.AdapterPath, [], {})
    return p


def top_setup(eng):
    M = eng.models
    st = {}
    count = [0]
    lv = {}
    def parse(e, a, k):
        r = e.call(AasTestResult, ["finding"], {"level": e.finding})
        e.call(e.getattr(a[2], "append"), [r], {})
        return Opaque(e.app("value", (e.resolve(a[0]).t, e.resolve(a[1]).t), U))
    def cc(e, a, k):
        count[0] += 1
        v = e.resolve(a[0])
        r = e.call(AasTestResult, ["violation"], {"level": e.violation})
        e.call(e.getattr(a[1], "append"), [r], {})
    M[P.parse] = parse
    M[P.check_constraints] = cc
    M[value_of] = lambda e, a, k: Opaque(e.app("value", (e.resolve(a[0]).t, e.resolve(a[1]).t), U))
    M[checked] = lambda e, a, k: count[0]
    def reset(e): count[0] = 0
    eng.reset_ = reset


def level(nm):
    def mk(e):
        v = e.mk(TEnum(Level), nm)
        setattr(e, nm, v)
        if nm == "finding": e.reset_(e)
        return v
    return mk


MODULES = ["aas_test_engines.test_cases.v3_0.parse"]
O = Obligation
USES = {"c01": None, "c02": None}  # contracts of callees this property rests on

OBLIGATIONS = [
    O("nested objects", h_walk, [("obj", DATA), ("res", SINK), ("path", mk_path)], setup=walk_setup(False)),
    O("constraints of one object", h_checks, [("obj", DATA), ("level", TEnum(Level)), ("path", mk_path)], setup=walk_setup(True)),
    O("constraints only of conforming documents", h_toplevel, [("t", TAbs("type")), ("v", TAbs("adapter")), ("findings", level("finding")), ("constraints", level("violation"))], setup=top_setup),
]


# ------------------------------------------------------------- concrete trees
@dataclass
class Base:
    label: str
    violated: dict
    log: list
    def check_base(self): self._do("check_base")
    def helper(self): raise RuntimeError("not a constraint check")
    def recheck_it(self): raise RuntimeError("not a constraint check")
    def _do(self, n):
        self.log[0].append((self.label, n))
        if n in self.violated: raise P.CheckConstraintException(f"{n} of {self.label} broken", self.violated[n])


@dataclass
class Node(Base):
    first: any
    items: list
    zlast: any
    def check_a(self): self._do("check_a")
    def check_z(self): self._do("check_z")


@dataclass
class Leaf(Base):
    def check_leaf(self): self._do("check_leaf")


class Log:
    """not a dataclass: ignored by the traversal"""
    def __init__(self): self.entries = []
    def append(self, x): self.entries.append(x)
    def __getitem__(self, i): return self


class Plain:
    def check_plain(self): raise RuntimeError("not a data object")


def build(spec, log):
    if spec is None or isinstance(spec, (str, int)): return spec
    if spec == ("plain",): return Plain()
    if spec[0] == "list": return [build(x, log) for x in spec[1]]
    label, viol, kind = spec[1], spec[2], spec[0]
    if kind == "leaf": return Leaf(label, viol, log)
    return Node(label, viol, log, build(spec[3], log), build(spec[4], log), build(spec[5], log))


def expect(spec, path, calls, finds):
    if not isinstance(spec, tuple) or spec[0] not in ("leaf", "node"): return
    for n in (["check_base", "check_leaf"] if spec[0] == "leaf" else ["check_a", "check_base", "check_z"]):
        calls.append((spec[1], n))
        if n in spec[2]: finds.append((f"{n} of {spec[1]} broken @ /" + "/".join(path), spec[2][n]))
    if spec[0] == "node":
        for f, v in zip(("first", "items", "zlast"), spec[3:]):
            if isinstance(v, tuple) and v[0] == "list":
                for i, x in enumerate(v[1]): expect(x, path + [f, str(i)], calls, finds)
            else: expect(v, path + [f], calls, finds)


def h_tree(spec):
    log = Log()
    obj = build(spec, log)
    res = AasTestResult("r")
    P.check_constraints(obj, res)
    calls, finds = [], []
    expect(spec, [], calls, finds)
    check("every constraint check of every object runs exactly once", sorted(log.entries) == sorted(calls))
    check("every violation is recorded with its severity and path", sorted((s.message, s.level.value) for s in res.sub_results) == sorted((m, l.value) for m, l in finds))
    check("and counted", res.level.value == max([0] + [l.value for _, l in finds]))


def gen_tree(g):
    r = g.r
    n = [0]
    def node(depth):
        x = r.random()
        if x < 0.1: return r.choice([None, "text", 3, ("plain",)])
        n[0] += 1
        lab = f"n{n[0]}"
        ks = ["check_base", "check_leaf", "check_a", "check_z"]
        viol = {k: r.choice(list(Level)[1:]) for k in ks if r.random() < 0.3}
        if depth > 3 or x < 0.35: return ("leaf", lab, viol)
        return ("node", lab, viol, node(depth + 1), ("list", [node(depth + 1) for _ in range(r.choice([0, 1, 2, 3]))]) if r.random() < 0.8 else None,
                r.choice([None, node(depth + 1), ("list", [node(depth + 1)])]))
    return [node(0)]


def h_whole(name, doc):
    """the whole pipeline on meta-model documents"""
    from contracts.c05 import model, judge
    t = model()[name]
    n, _ = judge(t, doc)
    if n == 0:
        # a constraint check that crashes is decided under C08 to C11
        try: visit(P.parse(t, A.JsonAdapter(doc, A.AdapterPath()), AasTestResult("r")), "", [])
        except AttributeError: assume(False)
    r, env = P.parse_and_check_json(t, doc)
    msgs = [x.message for x in r.sub_results]
    if n:
        check("constraints are skipped, not compliant", not r.ok() and any("kipped" in m for m in msgs) and not any("onstraints" in m and "kipped" not in m for m in msgs))
        return
    check("constraints are checked", len(r.sub_results) == 2)
    found = []
    visit(env, "", found)
    check("every violation of every object is found", sorted((x.message, x.level.value) for x in r.sub_results[1].sub_results) == sorted(found))
    check("and decides the verdict", r.level.value == max([0] + [l for _, l in found]))


def visit(o, path, found):
    if isinstance(o, list):
        for i, x in enumerate(o): visit(x, f"{path}/{i}", found)
        return
    if not dataclasses.is_dataclass(o): return
    seen = set()
    for c in type(o).__mro__:
        for n, f in vars(c).items():
            if n.startswith("check_") and n not in seen:
                seen.add(n)
                try: getattr(o, n)()
                except P.CheckConstraintException as e: found.append((f"{e} @ {path or '/'}", e.level.value))
    for f in dataclasses.fields(o): visit(getattr(o, f.name), f"{path}/{f.name}", found)


def gen_whole(g):
    from contracts.c05 import gen_model
    return gen_model(g)


C = dict(concrete=h_tree, gen=gen_tree, samples=300)
for o in OBLIGATIONS[:2]: o.concrete, o.gen, o.samples = h_tree, gen_tree, 300
OBLIGATIONS[2].concrete, OBLIGATIONS[2].gen, OBLIGATIONS[2].samples = h_whole, gen_whole, 300
PM = "aas_test_engines.test_cases.v3_0.parse:"
OBLIGATIONS += [
    O("object trees", h_tree, gen=gen_tree, mode="cross", samples=3000, functions=[PM + "check_constraints"]),
    O("documents", h_whole, gen=gen_whole, mode="cross", samples=2000, functions=[PM + "parse_and_check_json"]),
    O("paths", h_path, [("p", mk_apath := lambda e: path_with(e)), ("x", TStr())], setup=lambda e: None, concrete=None,
      gen=lambda g: [gen_path(g), g.r.choice(["a", 0, "x/y", ""])]),
]
ASSUMPTIONS = ["the names listed by dir() for constraint checks (check_...) are disjoint from the attribute names",
               "objects nested deeper than the interpreter's recursion limit are out of scope", "a parsed object is a tree (each parsed value is constructed for one place of the document)"]


def path_with(e):
    p = e.call(A.AdapterPath, [], {})
    n = z3.Int("els.n")
    e.ax.append(n >= 0)
    els = e.getattr(p, "elements")
    e.heap[els.id] = Lst([Span(n, lambda i: Opaque(e.app("el", (zi(i),), U)))])
    return p


def gen_path(g):
    p = A.AdapterPath()
    for _ in range(g.r.randint(0, 4)): p = p + g.r.choice(["a", 1, "b"])
    return p
