"""C02: scoped result contexts."""
from pyvc.spec import check, assume
from pyvc.tds import *
from pyvc.values import *
from pyvc.driver import Obligation
from aas_test_engines import result as R
from aas_test_engines.result import AasTestResult, Level, start, write, abort


class Boom(Exception):
    pass


class Fatal(BaseException):
    pass


def rank(level): return level.value


class Empty(Exception):
    """an exception without arguments whose text is empty"""


MAKE = {2: lambda: Boom("boom"), 3: lambda: KeyError("k"), 4: lambda: Fatal("stop"), 5: lambda: Empty(), 6: lambda: AssertionError(), 7: lambda: KeyboardInterrupt(), 8: lambda: SystemExit(0), 9: lambda: StopIteration(),
        10: lambda: ValueError("x", 1), 11: lambda: RuntimeError("No open context"), 12: lambda: OSError(2, "no"), 13: lambda: TypeError("t"), 14: lambda: NotImplementedError(), 15: lambda: RecursionError("r"), 16: lambda: TimeoutError(), 17: lambda: GeneratorExit()}
NK = len(MAKE) + 2


def leave(kind, x, e=None):
    """what the body of a scope does last"""
    if kind == 1: abort(x)
    if kind >= 2: raise e


def foreign(kind): return MAKE[kind]() if kind >= 2 else None


def h_scope(l0, l1, pre, kind, catch, x, post, msg, pcatch):
    """one scope nested in another, at any depth of enclosing scopes"""
    parent = start(AasTestResult("parent", l0), pcatch)
    p = parent.__enter__()
    try:
        p0 = p.level
        escaped = False
        c = AasTestResult(msg, l1)
        x0 = x.level
        e = foreign(kind)
        try:
            with start(c, catch) as c2:
                check("the scope yields its result", c2 is c)
                if pre is not None: write(pre)
                check("nothing attached to the parent yet", len(p.sub_results) == 0)
                leave(kind, x, e)
        except BaseException as f:
            escaped = True
            check("only the foreign exception itself escapes", kind >= 2 and f is e)
        n = len(c.sub_results)
        k = 0 if pre is None else 1
        if pre is not None:
            check("writes recorded in the scope", c.sub_results[0] is pre)
        if kind == 0:
            check("normal end attaches once", not escaped and p.sub_results == [c])
            check("nothing else recorded", n == k)
        if kind == 1:
            check("abort ends the scope, is recorded in it, attaches once", not escaped and p.sub_results == [c])
            check("abort recorded last", n == k + 1 and c.sub_results[-1] is x)
            check("with its own severity", x.level == x0)
            check("abort level counts", rank(c.level) >= rank(x.level))
        if kind >= 2:
            check("foreign exception swallowed exactly when catching all", escaped == (not catch))
            if catch:
                check("internal error recorded as CRITICAL", p.sub_results == [c] and n == k + 1 and c.sub_results[-1].level.name == "CRITICAL" and c.level.name == "CRITICAL")
            else:
                check("nothing recorded in the scope", n == k)
                check("nor in the parent", len(p.sub_results) == 0)
        d = len(p.sub_results)
        write(post)
        check("the enclosing scope is current again", len(p.sub_results) == d + 1 and p.sub_results[-1] is post)
        check("and the closed scope is left alone", len(c.sub_results) == n)
    finally:
        parent.__exit__(None, None, None)


def h_deep(l0, a, b, kind, x):
    """two scopes in a third: an abort in the innermost ends only that one"""
    with start("outer") as o:
        with start("middle") as m:
            write(a)
            with start("inner") as i:
                leave(kind, x)
                write(b)
            write(b)
            check("middle continues", m.sub_results == [a, i, b])
            check("inner got the write unless it was aborted", i.sub_results == ([b] if kind == 0 else [x]))
        check("outer has middle only", o.sub_results == [m])
        with start("second") as s: pass
        check("and then the second", o.sub_results == [m, s])


def h_abort_message(msg, lv):
    with start(AasTestResult("outer", lv)) as o:
        abort(msg)
    check("abort with a text records an ERROR with that text", len(o.sub_results) == 1 and o.sub_results[0].level.name == "ERROR" and o.sub_results[0].message == msg)
    check("and makes the scope non compliant", not o.ok())


def h_write_message(msg, lv):
    with start(AasTestResult("outer", lv)) as o:
        write(msg)
    check("write with a text records an INFO with that text", len(o.sub_results) == 1 and o.sub_results[0].level.name == "INFO" and o.sub_results[0].message == msg)
    check("severity of the scope unchanged", o.level == lv)


def h_start_message(msg, lv):
    with start(AasTestResult("outer", lv)) as o:
        with start(msg) as i: pass
    check("a scope opened with a text is an INFO with that text", i.message == msg and i.level.name == "INFO" and len(i.sub_results) == 0)
    check("attached, severity unchanged", o.sub_results == [i] and o.level == lv)


def h_no_scope(msg):
    ok = False
    try:
        write(msg)
    except RuntimeError:
        ok = True
    check("writing without an open scope is an error", ok)


def h_restored(kind, catch, x, msg):
    """after the outermost scope is left, however it is left, none is open"""
    try:
        with start("outer", catch) as o:
            leave(kind, x, foreign(kind))
    except BaseException as f: check("only a foreign exception escapes", kind >= 2)
    ok = False
    try:
        write(msg)
    except RuntimeError:
        ok = True
    check("no scope left open", ok)
    with start("again") as g:
        write(msg)
    check("scopes work again", len(g.sub_results) == 1)


def gen_res(g): return AasTestResult(g.str(), g.r.choice(list(Level)))


SUB = TAbs("AasTestResult*", attrs={"level": TEnum(Level), "message": TStr()}, cls=AasTestResult, gen=gen_res)
OUTER = TAbs("ContextManager*", attrs={"catch_all_exceptions": TBool(), "result": TAbs("AasTestResult@", methods={"append": lambda e, o, a, k: None})})


def nested(eng):
    """arbitrary stack of enclosing scopes"""
    from pyvc.engine import Undecided
    for n, v in list(vars(R).items()):
        if isinstance(v, list):
            nn = z3.Int("depth0")
            eng.ax.append(nn >= 0)
            eng.pc0 = [nn >= 0]
            eng.global_over[("aas_test_engines.result", n)] = eng.alloc(Lst([Span(nn, lambda i: eng.mk(OUTER, "outer[]", (zi(i),)))]))


def empty(eng):
    for n, v in list(vars(R).items()):
        if isinstance(v, list):
            eng.global_over[("aas_test_engines.result", n)] = eng.alloc(Lst([]))


from pyvc.engine import zi
import z3
MODULES = ["aas_test_engines.result"]
LV = TEnum(Level)
KIND = TConst(*range(NK))
OBLIGATIONS = [
    Obligation("nested scope", h_scope, [("l0", LV), ("l1", LV), ("pre", TOpt(SUB)), ("kind", KIND), ("catch", TBool()), ("x", SUB), ("post", SUB), ("msg", TStr()), ("pcatch", TBool())], setup=nested),
    Obligation("scopes in sequence and depth", h_deep, [("l0", LV), ("a", SUB), ("b", SUB), ("kind", TConst(0, 1)), ("x", SUB)], setup=nested),
    Obligation("abort with text", h_abort_message, [("msg", TStr()), ("lv", LV)], setup=nested),
    Obligation("write with text", h_write_message, [("msg", TStr()), ("lv", LV)], setup=nested),
    Obligation("scope with text", h_start_message, [("msg", TStr()), ("lv", LV)], setup=nested),
    Obligation("write without scope", h_no_scope, [("msg", TStr())], setup=empty),
    Obligation("stack restored", h_restored, [("kind", KIND), ("catch", TBool()), ("x", SUB), ("msg", TStr())], setup=empty),
]
ASSUMPTIONS = ["scopes are opened and closed by one thread (the scope stack is a module global)"]
