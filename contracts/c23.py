"""C23: runs of the server test suites."""
import inspect
import types
import requests
import z3
from fences.core.util import ConfusionMatrix
from pyvc.spec import check, assume
from pyvc.values import *
from pyvc.tds import *
from pyvc.driver import Obligation
from pyvc.engine import Undecided, PyRaise, zi
from contracts.c02 import nested, SUB
from contracts.support import known
from aas_test_engines import api as T
from aas_test_engines.config import CheckApiConfig
from aas_test_engines.exception import AasTestToolsException
from aas_test_engines.http import Request, HttpClient
from aas_test_engines.result import AasTestResult, Level, ResultException, start, write, abort
from aas_test_engines.test_cases.v3_0 import api as A


# --------------------------------------------------------------- reachability
class Down(requests.exceptions.ConnectionError): pass


def requests_sent(client): return client.sent


def h_reach(client, dry, reachable):
    with start("case") as case:
        ok = A._check_server(dry, client)
    check("goes on exactly when dry or reachable", ok == (dry or reachable))
    check("no request in a dry run, one otherwise", requests_sent(client) == (0 if dry else 1))
    check("severity", case.level.name == ("WARNING" if dry else "INFO" if reachable else "CRITICAL"))


class ReachClient:
    host = "http://x"
    def __init__(self): self.sent = 0
    def send(self, request):
        self.sent += 1
        if not self.reachable: raise self.error
        return requests.Response()


ERRORS = [requests.exceptions.ConnectionError, requests.exceptions.Timeout, requests.exceptions.InvalidURL, requests.exceptions.SSLError, requests.exceptions.TooManyRedirects, requests.exceptions.MissingSchema]


def gen_reach(g):
    c = ReachClient()
    c.reachable, c.error = g.r.random() < 0.5, g.r.choice(ERRORS)("no")
    return [c, g.r.random() < 0.5, c.reachable]


RCLIENT = TAbs("client", attrs={"host": TStr()})


def setup_reach(eng):
    nested(eng)
    n = [0]
    def send(e, o, a, k):
        n[0] += 1
        if e.branch(z3.Bool("reachable")): return Opaque(z3.Const("response", U))
        raise PyRaise(e.new_obj(Down, {"args": ("x",)}))
    RCLIENT.methods["send"] = send
    def client(e):
        n[0] = 0
        return e.mk(RCLIENT, "client")
    eng.models[requests_sent] = lambda e, a, k: n[0]
    eng.client_ = client


def mk_rclient(e): return e.client_(e)


# ------------------------------------------------------------------- counting
def negative(suite): return suite.neg
def positive(suite): return suite.pos


def h_counts(suite):
    with start("case"):
        m = A._execute(suite)
    neg, pos = negative(suite), positive(suite)
    check("negative tests passed", m.invalid_rejected == len([x for x in neg if x.ok()]))
    check("negative tests failed", m.invalid_accepted == len(neg) - len([x for x in neg if x.ok()]))
    check("positive tests passed", m.valid_accepted == len([x for x in pos if x.ok()]))
    check("positive tests failed", m.valid_rejected == len(pos) - len([x for x in pos if x.ok()]))


def setup_counts(eng):
    nested(eng)
    eng.inline_modules = eng.inline_modules | {"fences.core.util"}
    def extend(name):
        def model(e, a, k):
            xs = e.mk(TList(SUB), name)
            ms, = [v for (m, _), v in e.global_over.items() if m == "aas_test_engines.result"]
            r = e.getattr(e.getitem(ms, -1), "result")
            e.call(e.getattr(e.getattr(r, "sub_results"), "extend"), [xs], {})
            e.setattr(r, "level", e.mk(TEnum(Level), name + ".level"))
        return model
    M = eng.models
    M[A._execute_syntactic_tests] = extend("neg")
    M[A._execute_semantic_tests] = extend("pos")
    M[negative] = lambda e, a, k: e.mk(TList(SUB), "neg")
    M[positive] = lambda e, a, k: e.mk(TList(SUB), "pos")


# ------------------------------------------------------------------- the run
def event_log(): ...
def suites(): ...
def selected(conf, cls): return conf.filter is None or conf.filter.selects(cls.operation)
def setup_fails(cls): ...
def outcome(cls): ...
def reachable(): ...


def no_count(m): return m.valid_accepted == 0 and m.valid_rejected == 0 and m.invalid_accepted == 0 and m.invalid_rejected == 0


def h_run_not(client, conf):
    assume(conf.dry or not reachable())
    with start("run"):
        res, m = A.execute_tests(client, conf)
    ev = event_log()
    check("nothing is run", len(ev) == 0)
    check("nothing counted", no_count(m))
    if conf.dry:
        check("a dry run sends nothing", requests_sent(client) == 0)
        check("and is compliant", res.level.name == "WARNING")
    else:
        check("unreachable: CRITICAL", res.level.name == "CRITICAL")
        check("and no further request", requests_sent(client) == 1)


def h_run_events(client, conf):
    assume(not conf.dry and reachable())
    with start("run"): A.execute_tests(client, conf)
    want = []
    for prefix, cls in suites():
        if selected(conf, cls):
            want.append(("setup", prefix, cls))
            if not setup_fails(cls): want.append(("execute", prefix, cls))
    check("each selected operation once, in order, its tests unless its set-up fails", event_log() == want)


def h_run_totals(client, conf):
    assume(not conf.dry and reachable())
    with start("run"):
        res, m = A.execute_tests(client, conf)
    va = vr = ia = ir = 0
    for prefix, cls in suites():
        if selected(conf, cls) and not setup_fails(cls):
            o = outcome(cls)
            va += o.valid_accepted
            vr += o.valid_rejected
            ia += o.invalid_accepted
            ir += o.invalid_rejected
    check("totals of valid", m.valid_accepted == va and m.valid_rejected == vr)
    check("totals of invalid", m.invalid_accepted == ia and m.invalid_rejected == ir)


def h_run_failed_setup(client, conf, i):
    assume(not conf.dry and reachable() and 0 <= i < len(suites()))
    p, c = suites()[i]
    assume(selected(conf, c) and setup_fails(c))
    with start("run"):
        res, m = A.execute_tests(client, conf)
    check("a failed set-up is reported", not res.ok())


OP = TAbs("suite class", attrs={"operation": TStr()})
PREFIX = TAbs("prefix provider")
SUITE = TAbs("suite")
CLIENT = TAbs("client", attrs={"host": TStr()})
FILTER = TAbs("filter", methods={"selects": lambda e, o, a, k: SBool(e.app("selects", (o.t, e.st(e.resolve(a[0]))), B))})
CONF = TAbs("conf", attrs={"suite": TConst("known"), "dry": TBool(), "filter": TOpt(FILTER)})
OUT = TAbs("outcome", attrs={n: TInt(0, None) for n in ("valid_accepted", "valid_rejected", "invalid_accepted", "invalid_rejected")})


def suite_list(e):
    n = z3.Int("suites.n")
    e.assume(n >= 0)
    return SList(n, lambda i: (SObj(e.app("suites.prefix", (zi(i),), U), PREFIX), SObj(e.app("suites.class", (zi(i),), U), OP)))


def setup_run(eng):
    nested(eng)
    eng.inline_modules = eng.inline_modules | {"fences.core.util"}
    n = [0]
    eng.log_ = eng.new_list([])
    eng.n_ = n
    def send(e, o, a, k):
        n[0] += 1
        if e.branch(z3.Bool("reachable")): return Opaque(z3.Const("response", U))
        raise PyRaise(e.new_obj(Down, {"args": ("x",)}))
    CLIENT.methods["send"] = send
    CLIENT.methods["descend"] = lambda e, o, a, k: SObj(e.app("descend", (o.t, e.resolve(a[0]).t), U), CLIENT)
    PREFIX.methods["__call__"] = lambda e, o, a, k: SObj(o.t, TAbs("prefix"))
    def construct(e, o, a, k):
        # which suite on which client
        return SObj(e.app("suite", (o.t, e.resolve(a[0]).t), U), SUITE)
    OP.methods["__call__"] = construct
    sts = {}
    def setup_(e, o, a, k):
        cls, pre = parts(o)
        e.call(e.getattr(e.log_, "append"), [("setup", pre, cls)], {})
        if e.branch(fails(e, cls)): raise PyRaise(e.call(ResultException, [e.call(AasTestResult, ["x"], {"level": Level.ERROR})], {}))
        return None
    def parts(o):
        if o.t.decl().name() != "suite": raise Undecided("another suite")
        c, cl = o.t.arg(0), o.t.arg(1)
        if cl.decl().name() != "descend": raise Undecided("suite on another client")
        return SObj(c, OP), SObj(cl.arg(1), PREFIX)
    def fails(e, cls): return e.app("setup fails", (cls.t,), B)
    SUITE.methods["setup"] = setup_
    def execute(e, a, k):
        o = e.resolve(a[0])
        cls, pre = parts(o)
        e.call(e.getattr(e.log_, "append"), [("execute", pre, cls)], {})
        lv = e.app("level", (cls.t,), I)
        e.assume(z3.And(lv >= 0, lv < len(LEVELS)))
        e.call(write, [e.call(AasTestResult, ["x"], {"level": SEnum(Level, lv)})], {})
        return SObj(e.app("outcome", (cls.t,), U), OUT)
    M = eng.models
    M[A._execute] = execute
    M[outcome] = lambda e, a, k: SObj(e.app("outcome", (e.resolve(a[0]).t,), U), OUT)
    M[setup_fails] = lambda e, a, k: SBool(fails(e, e.resolve(a[0])))
    M[reachable] = lambda e, a, k: SBool(z3.Bool("reachable"))
    M[requests_sent] = lambda e, a, k: n[0]
    M[event_log] = lambda e, a, k: e.log_
    M[suites] = lambda e, a, k: suite_list(e)
    eng.suites_ = lambda e: suite_list(e)
    eng.global_over[(A.__name__, "available_suites")] = eng.alloc(Dct(None, [("known", eng.suites_(eng))]))


def mk_client(e):
    e.n_[0] = 0
    return e.mk(CLIENT, "client")


# ------------------------------------------------------------- concrete side
LEVELS = list(Level)


def fake_suite(name, setup_level, neg, pos, log):
    """an operation whose set-up and test cases end as planned: 0-3 abort with that level, 4 and above return after writing that level"""
    def act(x):
        r = AasTestResult("planned", LEVELS[x % 4])
        write(r) if x >= 4 else abort(r)
    class Suite:
        operation = name
        def __init__(self, client, suite): self.client, self.suite, self.valid_arguments = client, suite, {"a": True, "b": True}
        def setup(self):
            log.append(("setup", name, tuple(self.client.prefixes), self.suite))
            if setup_level is not None: act(setup_level)
        def invoke_error(self, a: bool, b: bool):
            i = sum(1 for e in log if e[0] == "neg" and e[1] == name)
            log.append(("neg", name, i))
            act(neg[i % len(neg)])
        def invoke_success(self, a: bool, b: bool): pass
    Suite.invoke_error.__qualname__ = "invoke_error"
    src = "".join(f"def test_{chr(122 - i)}(self):\n    log.append(('pos', name, {i})); act(pos[{i}])\n" for i in range(len(pos)))
    ns = {"log": log, "act": act, "pos": pos, "name": name}
    exec(src, ns)
    for i in range(len(pos)): setattr(Suite, f"test_{chr(122 - i)}", ns[f"test_{chr(122 - i)}"])
    return Suite


class RunClient:
    host = "http://x"
    def __init__(self, log, up, prefixes=()): self.log, self.up, self.prefixes = log, up, list(prefixes)
    def send(self, request):
        self.log.append(("request",))
        if not self.up: raise Down("down")
        return requests.Response()
    def descend(self, prefix): return RunClient(self.log, self.up, self.prefixes + [prefix])


def level_after(xs):
    return max([x % 4 for x in xs], default=0)


def c_run(plan, dry, up, chosen, through_front):
    log, client = [], None
    client = RunClient(log, up)
    table = [((lambda c, p=p: p), fake_suite(name, sl, neg, pos, log)) for name, p, sl, neg, pos in plan]
    conf = CheckApiConfig(suite="S")
    conf.dry = dry
    if chosen is not None: conf.filter = types.SimpleNamespace(selects=lambda o: o in chosen)
    old = A.available_suites.get("S")
    A.available_suites["S"] = table
    try: res, m = (T if through_front else A).execute_tests(client, conf)
    finally: del A.available_suites["S"]
    got = (m.valid_accepted, m.valid_rejected, m.invalid_accepted, m.invalid_rejected)
    if dry:
        check("a dry run sends nothing and runs nothing", log == [])
        check("and is compliant", res.ok() and got == (0, 0, 0, 0))
        return
    if not up:
        check("unreachable: CRITICAL and nothing more", res.level == Level.CRITICAL and log == [("request",)] and got == (0, 0, 0, 0))
        return
    want, va, vr, ia, ir, worst = [("request",)], 0, 0, 0, 0, 0
    names = []
    for name, p, sl, neg, pos in plan:
        if chosen is not None and name not in chosen: continue
        names.append("Checking " + name)
        want.append(("setup", name, (p,), "S"))
        if sl is not None:
            worst = max(worst, sl % 4)
            if sl % 4 > 1: continue
        # the boolean argument is attacked with every invalid value
        from aas_test_engines import reflect as R
        from aas_test_engines.test_cases.v3_0.generate import generate_invalid_values
        count = 2 * len(generate_invalid_values(R.FunctionType.Argument("a", R.BoolType(), True)))
        for i in range(count):
            want.append(("neg", name, i))
            x = neg[i % len(neg)] % 4
            ia, ir, worst = ia + (x > 1), ir + (x <= 1), max(worst, x)
        for i, x in enumerate(pos):
            want.append(("pos", name, i))
            va, vr, worst = va + (x % 4 <= 1), vr + (x % 4 > 1), max(worst, x % 4)
    check("each selected operation once, in order; a failing test case never prevents another", log == want)
    check("passed and failed tests are counted", got == (va, vr, ia, ir))
    check("every outcome decides the severity", res.level.value == worst)
    check("one result per selected operation, in order", [x.message for x in res.sub_results if x.message.startswith("Checking ")] == names)


def gen_run(g):
    r = g.r
    names = [f"Op{i}" for i in range(r.randint(0, 4))]
    plan = [(n, r.choice(["", "/aas", "/shells/x"]), r.choice([None, None, None, 0, 1, 2, 3, 4, 5, 6, 7]), [r.randint(0, 7) for _ in range(4)], [r.randint(0, 7) for _ in range(r.randint(0, 4))]) for n in names]
    return [plan, r.random() < 0.15, r.random() < 0.9, r.choice([None, names[::2], names[1:], []]), r.random() < 0.5]


# ------------------------------------------------------------- versions and suites
def h_version(client, conf):
    log = []
    raised, out = False, None
    try:
        out = T.execute_tests(client, conf)
    except AasTestToolsException:
        raised = True
    ok = conf.version is None or conf.version == "" or conf.version == "3.0"
    check("an unknown version is rejected", raised == (not ok))
    if ok: check("otherwise the suite is run with this client and configuration", out == delegated(client, conf))


def delegated(client, conf): return A.execute_tests(client, conf)


def c_version(version, suite):
    conf = CheckApiConfig(suite=suite)
    conf.version, conf.dry = version, True
    raised = False
    log = []
    try: res, m = T.execute_tests(RunClient(log, True), conf)
    except AasTestToolsException: raised = True
    check("unknown versions and suites are rejected, others run", raised == (version not in (None, "", "3.0") or suite not in A.available_suites))
    check("without any request", log == [])


def setup_version(eng):
    eng.models[A.execute_tests] = lambda e, a, k: SObj(e.app("run", (e.resolve(a[0]).t, e.resolve(a[1]).t), U), TAbs("outcome of the run"))


def h_unknown(client, conf):
    raised = False
    try: A.execute_tests(client, conf)
    except AasTestToolsException: raised = True
    check("an unknown suite is rejected", raised)
    check("without any request", requests_sent(client) == 0)


def gen_version(g):
    r = g.r
    return [r.choice([None, "", "3.0", "3", "2.0", "3.0 ", "latest", "3.1"]), r.choice(sorted(A.available_suites) + ["", "S", "SSP-002"])]


# ------------------------------------------------------------- a foreign exception
def f_foreign():
    """a server without shells: the run ends with an IndexError"""
    log = []
    class Empty(RunClient):
        def descend(self, prefix): return self
        def send(self, request):
            r = requests.Response()
            r.status_code, r._content = 200, b'{"paging_metadata": {}, "result": []}'
            return r
    conf = CheckApiConfig(suite=A.SSP_PREFIX + "AssetAdministrationShellRepositoryServiceSpecification/SSP-002")
    try: A.execute_tests(Empty(log, True), conf)
    except IndexError: return True
    return False


def h_defaults():
    c = CheckApiConfig(suite="S")
    check("by default everything is run, in the latest version", c.suite == "S" and c.version is None and c.dry is False and c.filter is None)


def h_tables():
    for suite in sorted(A.available_suites):
        ops = [c.operation for _, c in A.available_suites[suite]]
        check(f"{suite}: every operation once", len(ops) == len(set(ops)))


# ------------------------------------------------------ the test cases of an operation
def operations():
    out = []
    try:
        for s in sorted(A.available_suites):
            for _, c in A.available_suites[s]:
                if c not in out: out.append(c)
    except (AttributeError, TypeError, ValueError): return []
    return out


def names_of(cls): return sorted((n for n in dir(cls) if n.startswith("test_")), key=lambda n: getattr(cls, n).__code__.co_firstlineno)
def cases(k): return names_of(operations()[k])
def suite_of(k): ...
def ran(): ...
def level_of(i): ...


def h_cases(k):
    """every test case of this operation, whatever the others do"""
    suite = suite_of(k)
    with start("positive tests") as result:
        A._execute_semantic_tests(suite)
    names = cases(k)
    check("every test case exactly once, in the order of definition", ran() == names)
    check("one result for each", len(result.sub_results) == len(names))
    for i in range(len(names)): check("with its severity", result.sub_results[i].level.value == level_of(i).value)


def c_cases(k):
    """the same with planned outcomes"""
    cls = operations()[k]
    names = names_of(cls)
    for bits in range(1 << min(len(names), 5)):
        log = []
        def planned(i, n):
            def f(self=None):
                log.append(n)
                if bits >> i & 1: abort(AasTestResult("planned", Level.ERROR))
            f.__code__ = f.__code__.replace(co_firstlineno=i + 1)
            return f
        sub = type("Sub", (cls,), {n: planned(i, n) for i, n in enumerate(names)})
        with start("positive tests") as result: A._execute_semantic_tests(sub(None, "profile"))
        check("every test case exactly once, in the order of definition", log == names)
        check("one result for each", [x.level.name for x in result.sub_results] == ["ERROR" if bits >> i & 1 else "INFO" for i in range(len(names))])


def cases_setup(eng):
    nested(eng)
    log, levels, aborted = [], [], []
    def suite(e, a, k):
        del log[:], levels[:], aborted[:]
        cls = operations()[e.resolve(a[0])]
        names = names_of(cls)
        most = len(names) if len(names) <= 7 else 2
        for n in names: e.models[getattr(cls, n)] = case(n, most)
        return e.call(cls, [None, "profile"], {})
    def case(n, most):
        def run(e, a, k):
            log.append(n)
            l = e.mk(TEnum(Level), f"severity of {n}")
            levels.append(l)
            r = e.call(AasTestResult, ["outcome", l], {})
            if len(aborted) < most and e.branch(z3.Bool(f"{n} aborts")):
                aborted.append(n)
                e.call(abort, [r], {})
            e.call(write, [r], {})
        return run
    M = eng.models
    M[suite_of] = suite
    M[ran] = lambda e, a, k: e.new_list(list(log))
    M[cases] = lambda e, a, k: e.new_list(cases(e.resolve(a[0])))
    M[level_of] = lambda e, a, k: levels[e.resolve(a[0])]


def h_negative():
    """the negative tests of every operation: calls are generated once, from its own signature and arguments"""
    if not callable(getattr(A, "generate_calls", None)): raise Undecided("no generate_calls")
    for cls in operations():
        suite = cls(None, "profile")
        suite.valid_arguments = {"argument": ["of this operation"]}
        calls = []
        held = A.generate_calls
        A.generate_calls = lambda *a, **k: calls.append(inspect.signature(held).bind(*a, **k).args)
        try: A._execute_syntactic_tests(suite)
        finally: A.generate_calls = held
        check(f"{cls.__name__}: generated once", len(calls) == 1)
        f, name, given = calls[0]
        check(f"{cls.__name__}: for its operation", name == cls.operation and given == suite.valid_arguments)
        check(f"{cls.__name__}: from its signature", [x.name for x in f.args] == list(inspect.signature(suite.invoke_error).parameters))


FINDINGS = {"C23-foreign-exceptions": f_foreign}
V = "aas_test_engines.test_cases.v3_0.api"
MODULES = [V, "aas_test_engines.api"]
O = Obligation
USES = {"c01": None, "c02": None, "c20": None}  # contracts of callees this property rests on

OBLIGATIONS = [
    O("reachability", h_reach, [("client", mk_rclient), ("dry", TBool()), ("reachable", lambda e: SBool(z3.Bool("reachable")))], setup=setup_reach, gen=gen_reach),
    O("counting", h_counts, [("suite", TAbs("suite"))], setup=setup_counts, concrete=c_run, gen=gen_run),
    O("dry and unreachable", h_run_not, [("client", mk_client), ("conf", CONF)], setup=setup_run, concrete=c_run, gen=gen_run),
    O("operations run", h_run_events, [("client", mk_client), ("conf", CONF)], setup=setup_run, concrete=c_run, gen=gen_run, samples=1),
    O("totals", h_run_totals, [("client", mk_client), ("conf", CONF)], setup=setup_run, concrete=c_run, gen=gen_run, samples=1),
    O("failed set-up", h_run_failed_setup, [("client", mk_client), ("conf", CONF), ("i", TInt())], setup=setup_run, concrete=c_run, gen=gen_run, samples=1),
    O("version", h_version, [("client", TAbs("client")), ("conf", TAbs("conf", attrs={"version": TOpt(TStr())}))], setup=setup_version, concrete=c_version, gen=gen_version),
    O("unknown suite", h_unknown, [("client", mk_client), ("conf", TAbs("conf", attrs={"suite": TConst("unknown"), "dry": TBool()}))], setup=setup_run, concrete=c_version, gen=gen_version),
    O("operations of a suite", h_tables, mode="closed", functions=[V + ":available_suites"]),
    O("negative tests of every operation", h_negative, mode="closed", functions=[V + ":_execute_syntactic_tests"]),
    O("default configuration", h_defaults, mode="closed", functions=["aas_test_engines.config:CheckApiConfig"]),
    O("complete runs", c_run, gen=gen_run, mode="cross", samples=3000, functions=[V + ":" + f for f in ("_execute_semantic_tests", "_execute_syntactic_tests", "_execute", "execute_tests")]),
]
for _k, _c in enumerate(operations()):
    OBLIGATIONS.append(O(f"test cases of {_c.operation} ({_c.__name__})" + ("" if len(names_of(_c)) <= 7 else ", at most two aborting"), h_cases, [("k", TConst(_k))], setup=cases_setup, concrete=c_cases, fixed=[[_k]], samples=1))
ASSUMPTIONS = ["set-up and test cases end normally or by an abort; other exceptions end the run (finding C23-foreign-exceptions)", "requests raises a RequestException when the server cannot be reached"]
