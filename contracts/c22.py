"""C22: decoding of server responses and assertions."""
import json
from enum import Enum
import requests
import z3
from pyvc.spec import check, assume
from pyvc.values import *
from pyvc.tds import *
from pyvc.driver import Obligation
from pyvc.engine import Undecided, zi, zb
from pyvc.engine import PyRaise
from contracts.c02 import nested
from contracts.c06 import mk_value, gen_json
from contracts.support import known
from aas_test_engines import reflect as R
from aas_test_engines.http import Request
from aas_test_engines.test_cases.v3_0 import api as A
from aas_test_engines.test_cases.v3_0.model import Reference
from aas_test_engines.result import AasTestResult, Level, start, write, abort
from aas_test_engines.test_cases.v3_0 import parse as P
from aas_test_engines.test_cases.v3_0.interfaces import shared as S


# --------------------------------------------------------- vocabulary (concrete)
class Client:
    """answers every request with one response"""
    def __init__(self, response): self.response, self.prefixes, self.sent = response, ["/a", "/b"], 0
    def send(self, request):
        self.sent += 1
        return self.response


def response(status, content):
    r = requests.Response()
    r.status_code, r._content = status, content
    return r


def body(resp):
    """('json', value) or ('garbage', None)"""
    try:
        return ("json", json.loads(resp.content.decode("utf-8")))
    except ValueError:
        return ("garbage", None)


def client_for(resp): return Client(resp)
def verdict(t, data): return P.parse_and_check_json(t, data)[0].level
def parsed(t, data): return P.parse_and_check_json(t, data)[1]
def same(a, b): return a is b or a == b
def requests_sent(client): return client.sent


# ------------------------------------------------------------------- contracts
def h_decode(resp, t, expected, path, level):
    assume(all(s < 500 for s in expected))
    client = client_for(resp)
    done, value = False, None
    with start("case") as case:
        value = S.invoke_and_decode(client, Request(path=path), t, expected)
        done = True
    kind, data = body(resp)
    status = resp.status_code
    conforms = status in expected and kind == "json" and isinstance(data, (dict, list)) and verdict(t, data).value < Level.ERROR.value
    check("one request", requests_sent(client) == 1)
    check("accepted exactly when status and body conform", done == conforms)
    if done:
        check("the parsed body is returned", same(value, parsed(t, data)))
        check("and the case stays compliant with the findings of the body", case.level.value == verdict(t, data).value)
    elif status >= 500: check("server errors are CRITICAL", case.level.name == "CRITICAL")
    elif status not in expected or kind != "json" or not isinstance(data, (dict, list)): check("other rejections are errors", case.level.name == "ERROR")
    else: check("the findings of the body decide", case.level.value == verdict(t, data).value)


def h_extract(resp):
    done, value = False, None
    with start("case") as case:
        value = S.extract_json(resp)
        done = True
    kind, data = body(resp)
    check("extracted exactly when it is a JSON object or array", done == (kind == "json" and isinstance(data, (dict, list))))
    if done: check("its value, nothing reported", same(value, data) and case.level.name == "INFO" and len(case.sub_results) == 0)
    else: check("otherwise aborted with one error", case.level.name == "ERROR" and len(case.sub_results) == 1)


def h_assert(cond, message, level, default):
    done = False
    with start("case") as case:
        if default: S._assert(cond, message)
        else: S._assert(cond, message, level)
        done = True
    check("goes on exactly when the condition holds", done == cond)
    check("recorded once", len(case.sub_results) == 1)
    want = Level.INFO.value if cond else Level.ERROR.value if default else level.value
    check("with its severity", case.sub_results[0].level.value == want and case.level.value == want)


# ---------------------------------------------------------------- symbolic side
RESP = TAbs("response", attrs={"status_code": TInt(100, 999), "content": TAbs("bytes")})
garbled = lambda o: z3.Function("body.garbage", U, B)(o.t)


def resp_json(e, o, a, k):
    if e.branch(garbled(o)): raise PyRaise(e.new_obj(requests.exceptions.JSONDecodeError, {"args": ("x",)}))
    return value(e)


def content_decode(e, o, a, k):
    if e.branch(z3.Function("bytes.garbled", U, B)(o.t)): raise PyRaise(e.new_obj(UnicodeDecodeError, {"args": ("utf-8",)}))
    return SStr(e.app("bytes.text", (o.t,), e.S))


RESP.methods["json"] = resp_json
RESP.attrs["content"].methods["decode"] = content_decode
CLIENT = TAbs("client", attrs={"prefixes": TList(TStr())})


def setup(eng):
    nested(eng)
    sent = [0]
    def client_(e, a, k):
        sent[0] = 0
        e.resp_ = e.resolve(a[0])
        return SObj(z3.Const("client", U), CLIENT)
    def send(e, o, a, k):
        sent[0] += 1
        return e.resp_
    CLIENT.methods["send"] = send
    def body_(e, a, k):
        o = e.resolve(a[0])
        if e.branch(garbled(o)): return ("garbage", None)
        return ("json", value(e))
    def lvl(e, t, d): return e.verdict_
    val = lambda e: Opaque(z3.Const("parsed", U))
    M = eng.models
    M[client_for] = client_
    M[body] = body_
    M[requests_sent] = lambda e, a, k: sent[0]
    M[P.parse_and_check_json] = lambda e, a, k: (e.call(AasTestResult, ["body"], {"level": lvl(e, None, None)}), val(e))
    M[verdict] = lambda e, a, k: lvl(e, None, None)
    M[parsed] = lambda e, a, k: val(e)
    M[same] = lambda e, a, k: True if a[0] is a[1] else e.eq(a[0], a[1])


def mk_level(e):
    """the severity of parsing the body"""
    e.verdict_ = e.mk(TEnum(Level), "verdict")
    return e.verdict_


def value(e):
    """the decoded body"""
    if not hasattr(e, "body_"): e.body_ = mk_value(e)
    return e.body_


# ---------------------------------------------------------------- concrete side
BODIES = [b"", b"{}", b"[]", b'{"a": 1}', b"[1]", b"null", b"1", b'"x"', b"true", b"{", b"\xff\xfe", b"\x80", b"NaN", b'{"messages": []}', b'{"messages": 1}', b'{"messages": [{"code": "x"}]}', b"x" * 400]


def gen_resp(g):
    r = g.r
    b = r.choice(BODIES) if r.random() < 0.7 else json.dumps(gen_json(g)).encode()
    return response(r.choice([200, 200, 201, 204, 301, 400, 404, 499, 500, 501, 503, 599, 100, 999]), b)


def gen(g):
    r = g.r
    return [gen_resp(g), S.r_error_result, set(r.sample([200, 201, 204, 400, 404, 499], r.randint(0, 3))), r.choice(["", "/x", "/shells"]), None]


MODULES = ["aas_test_engines.test_cases.v3_0.interfaces.shared"]
O = Obligation
USES = {"c01": None, "c02": None}  # contracts of callees this property rests on

OBLIGATIONS = [
    O("responses", h_decode, [("resp", RESP), ("t", TAbs("type")), ("expected", TList(TInt())), ("path", TStr()), ("level", mk_level)], gen=gen, setup=setup),
    O("JSON bodies", h_extract, [("resp", RESP)], gen=lambda g: [gen_resp(g)], setup=setup),
    O("assertions", h_assert, [("cond", TBool()), ("message", TStr()), ("level", TEnum(Level)), ("default", TBool())], setup=nested),
]

# ------------------------------------------------------- the operations themselves
def suite_classes():
    seen = []
    for suite in sorted(A.available_suites):
        for _, c in A.available_suites[suite]:
            if c not in seen: seen.append(c)
    return seen


def example(t):
    if isinstance(t, R.NumberType): return 1
    if isinstance(t, R.StringType): return "x"
    if isinstance(t, R.StringFormattedValueType): return t.cls("x")
    if isinstance(t, R.EnumType): return list(t.cls)[0]
    if isinstance(t, R.BoolType): return True
    return t.cls("x", "x") if t.cls is S.AssetId else None


def call(cls, method, resp, all_args):
    """the scope's result and whether the operation accepted the response"""
    o = cls(client_for(resp), "profile")
    f = R.reflect_function(getattr(o, method), vars(A), {"Reference": Reference})
    args = {a.name: example(a.type) for a in f.args if a.required or all_args}
    done = False
    with start("case") as case:
        getattr(o, method)(**args)
        done = True
    return done, case


UNCHECKED = ["GetSubmodel-ValueOnly", "GetSubmodelById-ValueOnly", "GetSubmodelElementByPath-Metadata", "GetSubmodelElementByPath-ValueOnly", "GetFileByPath", "GetThumbnail"]


def h_operations(status, text, all_args):
    resp = response(status, text)
    for cls in suite_classes():
        for method, fine in (("invoke_success", status == 200), ("invoke_error", 400 <= status < 500)):
            if fine: continue
            if method == "invoke_success" and cls.operation in UNCHECKED and known("C22-unchecked-status"): continue
            try:
                done, case = call(cls, method, resp, all_args)
            except NotImplementedError:
                continue  # operations without error responses
            check(f"{cls.operation}: an unexpected status is not accepted", not done)
            check(f"{cls.operation}: its severity", case.level.name == ("CRITICAL" if status >= 500 else "ERROR"))


def operate(k, method, client, all_args):
    cls = suite_classes()[k]
    o = cls(client, "profile")
    return getattr(o, method)(**arguments(o, method, all_args))


def arguments(o, method, all_args):
    f = R.reflect_function(getattr(o, method), vars(A), {"Reference": Reference})
    return {a.name: example(a.type) for a in f.args if a.required or all_args}


def implemented(k, method): return suite_classes()[k].__dict__.get(method) is not None or any(method in c.__dict__ for c in suite_classes()[k].__mro__[1:] if c is not S.ApiTestSuite)


def h_operation(k, success, resp, all_args, level):
    """one operation, for every response"""
    if success and unchecked(k) and known("C22-unchecked-status"): return
    status = resp.status_code
    client = client_for(resp)
    done = False
    try:
        with start("case") as case:
            operate(k, "invoke_success" if success else "invoke_error", client, all_args)
            done = True
    except NotImplementedError:
        check("only operations that cannot fail have no error response, and nothing is sent", not success and requests_sent(client) == 0)
        return
    check("one request", requests_sent(client) == 1)
    fine = status == 200 if success else 400 <= status and status < 500
    check("an unexpected status is not accepted", fine or not done)
    if status >= 500: check("server errors are CRITICAL", case.level.name == "CRITICAL")
    elif not fine: check("other unexpected statuses are errors", case.level.name == "ERROR")


def unchecked(k): return suite_classes()[k].operation in UNCHECKED


def symbolic(e, name, v):
    if type(v) is str: return e.mk(TStr(), "arg." + name)
    if type(v) is int: return e.mk(TInt(), "arg." + name)
    if type(v) is bool: return e.mk(TBool(), "arg." + name)
    if isinstance(v, Enum): return e.mk(TEnum(type(v)), "arg." + name)
    return v


def decoded(e, a, k):
    """the contract of invoke_and_decode ("responses")"""
    a = dict(zip(("client", "request", "return_type", "expected_status"), a), **k)
    if set(a) != {"client", "request", "return_type", "expected_status"}: raise Undecided("invoke_and_decode")
    resp = e.resolve(e.call_method(a["client"], "send", [a["request"]], {}))
    status = e.getattr(resp, "status_code")
    def stop(level): return e.call(abort, [e.call(AasTestResult, ["unexpected", level], {})], {})
    if e.branch(status.t >= 500): return stop(Level.CRITICAL)
    if not e.branch(zb(e.contains(a["expected_status"], status))): return stop(Level.ERROR)
    if e.branch(z3.Function("body.conforms", U, B)(resp.t)):
        e.call(write, ["body"], {})
        return Opaque(z3.Const("parsed", U))
    if e.branch(garbled(resp)): return stop(Level.ERROR)
    return stop(Level.CRITICAL)


def op_setup(eng):
    setup(eng)
    M = eng.models
    def op(e, a, k):
        i, method, client, full = [e.resolve(x) for x in a]
        cls = suite_classes()[i]
        if isinstance(full, SBool): full = e.branch(full.t)
        args = {x: symbolic(e, x, v) for x, v in arguments(cls(None, "profile"), method, full).items()}
        o = e.call(cls, [client, "profile"], {})
        return e.call_method(o, method, [], args)
    M[operate] = op
    iad = getattr(S, "invoke_and_decode", None)
    if iad is not None: M[iad] = decoded
    M[unchecked] = lambda e, a, k: unchecked(e.resolve(a[0]))
    M[Request.make_url] = lambda e, a, k: SStr(e.fresh("url", e.S))


STATUS = [100, 199, 201, 202, 204, 206, 301, 302, 304, 399, 400, 401, 403, 404, 405, 409, 422, 499, 500, 501, 502, 503, 504, 599]


def f_unchecked():
    cls = next(c for c in suite_classes() if c.operation == "GetSubmodel-ValueOnly")
    return call(cls, "invoke_success", response(404, b"{}"), False)[0]


FINDINGS = {"C22-unchecked-status": f_unchecked}
OBLIGATIONS.append(O("operations reject unexpected statuses", h_operations, fixed=[[s, b, a] for s in STATUS for b in (b"{}", b"[]", b'{"messages": []}') for a in (False, True)], mode="cross",
                     functions=["aas_test_engines.test_cases.v3_0.interfaces:invoke_success", "aas_test_engines.test_cases.v3_0.interfaces:invoke_error"]))


def op_cases():
    try: cs = suite_classes()
    except (AttributeError, TypeError, ValueError): return []    # the table of suites has another form: the cross-checks fail to attach, too
    return [(k, ok) for k in range(len(cs)) for ok in (True, False) if implemented(k, "invoke_success" if ok else "invoke_error") and not (ok and unchecked(k) and known("C22-unchecked-status"))]


for _k, _ok in op_cases():
    OBLIGATIONS.append(O(f"{suite_classes()[_k].operation}: {'successful' if _ok else 'erroneous'} call", h_operation,
                         [("k", TConst(_k)), ("success", TConst(_ok)), ("resp", RESP), ("all_args", TBool()), ("level", mk_level)], setup=op_setup,
                         gen=lambda g, k=_k, ok=_ok: [k, ok, gen_resp(g), g.r.random() < 0.5, None], samples=100))
ASSUMPTIONS = ["the set of expected status codes contains none of 500 or above", "requests decodes bodies as JSON or raises its JSONDecodeError", "parse_and_check_json by its contract (C05, C12)"]
