"""C24: generation of negative test calls."""
import enum, re
import z3
from pyvc.spec import check, assume
from pyvc.values import *
from pyvc.tds import *
from pyvc.driver import Obligation
from pyvc.engine import Undecided, PyRaise, zi
from contracts.c02 import nested
from contracts.c22 import suite_classes
from aas_test_engines import reflect as R
from aas_test_engines.result import AasTestResult, Level, ResultException, start, abort
from aas_test_engines.test_cases.v3_0 import generate as G, api as A
from aas_test_engines.test_cases.v3_0.interfaces import shared as S
from aas_test_engines.test_cases.v3_0.model import Reference


def base64url(s):
    """decodable: whole groups, and a rest of 2 or 3 characters with or without its padding"""
    return re.fullmatch(r"(?:[A-Za-z0-9_-]{4})*(?:[A-Za-z0-9_-]{2}(?:==)?|[A-Za-z0-9_-]{3}=?)?", s) is not None


# ------------------------------------------------------------ values for one argument
class Other: pass


def invalid(t, name, v):
    """v is not acceptable for an argument of this type"""
    if isinstance(t, R.NumberType): return isinstance(v, int) and v < 0
    if isinstance(t, R.StringFormattedValueType) or isinstance(t, R.ClassType): return not base64url(str(v))
    if isinstance(t, R.EnumType): return all(m.value != v.value for m in t.cls) and str(v) == v.value
    return str(v) not in ("true", "false")


def h_values(arg, limit):
    """every kind of type; numbers only as limits (decided for all operations below)"""
    t = arg.type
    assume(not isinstance(t, R.NumberType) or arg.name == "limit")
    vs = G.generate_invalid_values(arg)
    attacked = not (isinstance(t, R.StringType) or (isinstance(t, R.StringFormattedValueType) and not t.cls.base64) or (isinstance(t, R.ClassType) and t.cls is not S.AssetId))
    if not attacked: check("free strings and other values are not attacked", len(vs) == 0)
    else:
        check("at least one invalid value", len(vs) >= 1)
        check("every value is invalid for the type", all(invalid(t, arg.name, v) for v in vs))


# -------------------------------------------------------------------------- the calls
def calls(): ...  # (argument name, value) of the calls made, in order; all other arguments valid
def start_log(): ...


def h_calls(func, valid, scope):
    start_log()
    G.generate_calls(func, scope, valid)
    want = [(a.name, v) for a in func.args for v in G.generate_invalid_values(a)]
    check("one call per invalid value, in argument order, everything else valid", calls() == want)


# ---------------------------------------------------------------------- symbolic side
MEMBER = TAbs("member", attrs={"value": TStr()})
ENUM = TAbs("enum")


def enum_iter(e, o, a, k):
    n = e.app("enum.n", (o.t,), I)
    e.assume(n >= 1)
    return SList(n, lambda i: SObj(e.app("enum.at", (o.t, zi(i)), U), MEMBER))


ENUM.methods["__iter__"] = enum_iter
SFV = TAbs("string class", attrs={"base64": TBool()})


def mk_arg(e):
    ts = [e.call(R.NumberType, [], {}), e.call(R.StringType, [], {}), e.call(R.StringFormattedValueType, [e.mk(SFV, "sfv")], {}), e.call(R.EnumType, [e.mk(ENUM, "enum")], {}),
          e.call(R.BoolType, [], {}), e.call(R.ClassType, [S.AssetId, e.new_list([]), {}, e.new_list([])], {}), e.call(R.ClassType, [Other, e.new_list([]), {}, e.new_list([])], {})]
    k = z3.Int("arg.kind")
    e.assume(z3.And(k >= 0, k < len(ts)))
    t = e.mk_union([(k == i, x) for i, x in enumerate(ts)])
    return e.call(R.FunctionType.Argument, [e.mk(TStr(), "name"), t, True], {})


ARG = TAbs("argument", attrs={"name": TStr()})
VAL = TAbs("value", attrs={"text": TStr()}, methods={"__str__": lambda e, o, a, k: e.getattr(o, "text")})
FUNC = TAbs("function")


def mk_func(e):
    return e.mk(TAbs("function type", attrs={"args": TList(ARG), "func": FUNC}), "func")


def mk_valid(e):
    n = z3.Int("valid.n")
    e.assume(n >= 0)
    key = lambda i: e.app("valid.key", (zi(i),), e.S)
    idx = lambda s: e.app("valid.idx", (s,), I)
    m = SMap(n, key, lambda s: z3.And(idx(e.st(s)) >= 0, idx(e.st(s)) < n), lambda s: Opaque(e.app("valid.at", (e.st(s),), U)))
    e.valid_ = m
    return m


def setup(eng):
    nested(eng)
    eng.log_ = eng.new_list([])
    def call(e, o, a, k):
        d = e.resolve(k.get("**")) if set(k) == {"**"} and not a else None
        if not (isinstance(d, Ref) and isinstance(e.heap[d.id], Dct)): raise Undecided("call with other arguments")
        r = e.heap[d.id]
        if r.base is not e.valid_ or len(r.puts) != 1: raise Undecided("arguments that are not the valid ones with one replaced")
        (kk, vv), = r.puts
        e.call(e.getattr(e.log_, "append"), [(kk, vv)], {})
        if e.branch(e.app("aborts", (e.resolve(vv).t,), B)): raise PyRaise(e.call(ResultException, [e.call(AasTestResult, ["x"], {"level": Level.ERROR})], {}))
        return None
    FUNC.methods["__call__"] = call
    M = eng.models
    def values(e, a, k):
        o = e.resolve(a[0])
        n = e.app("invalid.n", (o.t,), I)
        e.assume(n >= 0)
        return SList(n, lambda i: SObj(e.app("invalid.at", (o.t, zi(i)), U), VAL))
    M[G.generate_invalid_values] = values
    M[start_log] = lambda e, a, k: None
    M[calls] = lambda e, a, k: e.log_


# ---------------------------------------------------------------------- concrete side
def gen_type(g):
    r = g.r
    k = r.randrange(8)
    if k == 0: return R.NumberType()
    if k == 1: return R.StringType()
    if k == 2: return R.StringFormattedValueType(S.Base64String)
    if k == 3: return R.StringFormattedValueType(type("Plain", (R.StringFormattedValue,), {}))
    if k == 4: return R.EnumType(enum.Enum("E", {f"M{i}": v for i, v in enumerate(r.sample(["a", "core", "deep", "#", "##", "###", "x" * 9, "withBlobValue", "", "true"], r.randint(1, 4)))}))
    if k == 5: return R.BoolType()
    return R.ClassType(S.AssetId if k == 6 else Other, [], {}, [])


def gen_arg(g):
    t = gen_type(g)
    return R.FunctionType.Argument("limit" if isinstance(t, R.NumberType) else g.r.choice(["limit", "level", "x"]), t, g.r.random() < 0.5)


def c_calls(args, valid, outcomes):
    names = []
    args = [a for a in args if a.name not in names and not names.append(a.name)]
    made = []
    def f(**kw):
        made.append(dict(kw))
        o = outcomes[len(made) % len(outcomes)]
        if o == 1: abort("no")
        if o == 2: abort(AasTestResult("no", Level.CRITICAL))
    valid0 = dict(valid)
    with start("negative") as res: G.generate_calls(R.FunctionType(f, R.NoneType(), args), "scope", valid)
    check("the valid arguments are not changed", valid == valid0)
    want = [(a.name, str(v)) for a in args for v in G.generate_invalid_values(a)]
    check("one call per invalid value, in argument order", len(made) == len(want) and all(str(m[n]) == v for m, (n, v) in zip(made, want)))
    check("all other arguments valid", all({k: v for k, v in m.items() if k != n} == {k: v for k, v in valid0.items() if k != n} for m, (n, _) in zip(made, want)))
    check("one result per call", len(res.sub_results) == len(want))


def gen_calls(g):
    r = g.r
    args = [gen_arg(g) for _ in range(r.randint(0, 4))]
    for i, a in enumerate(args):
        if not isinstance(a.type, R.NumberType): a.name = f"a{i}"
    return [args, {f"a{i}": object() for i in range(r.randint(0, 4))}, [r.randint(0, 2) for _ in range(4)]]


# ---------------------------------------------------------------------- all operations
def h_operations():
    for cls in suite_classes():
        f = R.reflect_function(cls.invoke_error, vars(A), {"Reference": Reference})
        for a in f.args:
            if isinstance(a.type, R.NumberType): check(f"{cls.operation}: numbers are limits", a.name == "limit")
            vs = G.generate_invalid_values(a)
            free = isinstance(a.type, R.StringType)
            check(f"{cls.operation}.{a.name}: attacked unless it is a free string", (len(vs) == 0) == free)
            check(f"{cls.operation}.{a.name}: with invalid values", all(invalid(a.type, a.name, v) for v in vs))
        check(f"{cls.operation}: positive and negative calls take the same arguments", f == R.reflect_function(cls.invoke_success, vars(A), {"Reference": Reference}))


GP = "aas_test_engines.test_cases.v3_0.generate:"
MODULES = ["aas_test_engines.test_cases.v3_0.generate"]
O = Obligation
USES = {"c27": ["reflect_function"]}  # contracts of callees this property rests on

OBLIGATIONS = [
    O("invalid values", h_values, [("arg", mk_arg), ("limit", TInt())], gen=lambda g: [gen_arg(g), 0]),
    O("calls", h_calls, [("func", mk_func), ("valid", mk_valid), ("scope", TStr())], setup=setup, concrete=c_calls, gen=gen_calls),
    O("arguments of all operations", h_operations, mode="closed", functions=[GP + "generate_invalid_values"]),
]
ASSUMPTIONS = ["an operation called with its own argument names raises no TypeError", "exceptions other than an abort end the run (see C23)"]
