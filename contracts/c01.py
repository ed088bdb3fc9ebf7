"""C01: severity aggregation."""
from pyvc.spec import check, assume
from pyvc.tds import *
from pyvc.driver import Obligation
from aas_test_engines import result as R
from aas_test_engines.result import AasTestResult, Level

ORDER = ["INFO", "WARNING", "ERROR", "CRITICAL"]


def rank(level):
    return 0 if level.name == "INFO" else 1 if level.name == "WARNING" else 2 if level.name == "ERROR" else 3


def h_order():
    check("exactly the four levels in order", [l.name for l in sorted(list(Level), key=lambda l: l.value)] == ORDER)


def h_or(a, b):
    r = a | b
    check("combined level is the maximum", rank(r) == max(rank(a), rank(b)))


def h_new(msg, lv):
    n = AasTestResult(msg, lv)
    check("message kept", n.message == msg)
    check("level kept", n.level == lv)
    check("no sub results", len(n.sub_results) == 0)


def h_default(msg):
    check("default level is INFO", AasTestResult(msg).level.name == "INFO")


def h_append(msg, lv, subs, res):
    """append on a node in an arbitrary state"""
    n = AasTestResult(msg, lv)
    for s in subs: n.append(s)
    before = rank(n.level)
    rl = res.level
    n.append(res)
    check("level is max of old level and appended level", rank(n.level) == max(before, rank(rl)))
    check("appending never lowers", rank(n.level) >= before)
    check("message unchanged", n.message == msg)
    check("appended result unchanged", res.level == rl)
    check("sub results are the old ones followed by the new one", n.sub_results == list(subs) + [res])
    check("new one last, same object", n.sub_results[-1] is res)


def h_fold(msg, lv, subs):
    """any number of appends: worst severity, order kept, nothing dropped"""
    n = AasTestResult(msg, lv)
    for s in subs: n.append(s)
    for i in range(4):
        check("level at least L iff created with it or some appended has it",
              (rank(n.level) >= i) == (rank(lv) >= i or any(rank(s.level) >= i for s in subs)))
    check("nothing dropped or reordered", n.sub_results == list(subs))
    check("compliant iff INFO or WARNING", n.ok() == (n.level.name == "INFO" or n.level.name == "WARNING"))


def h_ok(msg, lv, subs):
    n = AasTestResult(msg, lv)
    for s in subs: n.append(s)
    r = n.ok()
    check("ok exactly for INFO and WARNING", r == (n.level.name in {"INFO", "WARNING"}))
    check("ok is a bool", r is True or r is False)


def gen_result(g, depth=2):
    n = AasTestResult(g.str(), g.r.choice(list(Level)))
    if depth > 0:
        for _ in range(g.r.choice([0, 0, 1, 2])): n.append(gen_result(g, depth - 1))
    return n


def build_tree(spec):
    """spec = [level, [children]] built bottom-up / top-down through the API"""
    n = AasTestResult("n", spec[0])
    for c in spec[1]: n.append(build_tree(c))
    return n


def worst(spec):
    w = rank(spec[0])
    for c in spec[1]:
        w = max(w, worst(c))
    return w


def c_tree(spec):
    n = build_tree(spec)
    def rec(n, spec):
        check("node level is the maximum over its subtree", rank(n.level) == worst(spec))
        check("number of sub results", len(n.sub_results) == len(spec[1]))
        check("compliance", n.ok() == (worst(spec) <= 1))
        for x, y in zip(n.sub_results, spec[1]): rec(x, y)
    rec(n, spec)


def gen_tree(g):
    def rec(d):
        return [g.choice("lv", list(Level)), [rec(d - 1) for _ in range(g.size([0, 1, 1, 2, 3]) if d == top else g.r.choice([0, 1, 1, 2, 3]))] if d > 0 else []]
    top = g.r.choice([1, 2, 3, 4])
    t = rec(top)
    for _ in range(g.size([0], 130)): t = [g.choice("lv", list(Level)), [t]]
    return [t]


SUB = TAbs("AasTestResult*", attrs={"level": TEnum(Level), "message": TStr()}, cls=AasTestResult, gen=gen_result)
MODULES = ["aas_test_engines.result"]
LV = TEnum(Level)
OBLIGATIONS = [
    Obligation("Level order", h_order, [], mode="closed", functions=["aas_test_engines.result:Level"]),
    Obligation("Level.__or__", h_or, [("a", LV), ("b", LV)]),
    Obligation("AasTestResult.__init__", h_new, [("msg", TStr()), ("lv", LV)]),
    Obligation("AasTestResult default level", h_default, [("msg", TStr())]),
    Obligation("AasTestResult.append", h_append, [("msg", TStr()), ("lv", LV), ("subs", TList(SUB)), ("res", SUB)]),
    Obligation("AasTestResult.append (any number)", h_fold, [("msg", TStr()), ("lv", LV), ("subs", TList(SUB))]),
    Obligation("AasTestResult.ok", h_ok, [("msg", TStr()), ("lv", LV), ("subs", TList(SUB))]),
    Obligation("whole trees (induction replay)", c_tree, [("spec", None)], gen=gen_tree, mode="cross"),
]
ASSUMPTIONS = ["sub-results are themselves AasTestResult objects whose level does not change after they were appended"]
