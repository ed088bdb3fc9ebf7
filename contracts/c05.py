"""C05: parsing documents against reflected types."""
import copy, enum, re
import z3
from pyvc.spec import check, assume
from pyvc.values import *
from pyvc.tds import *
from pyvc.driver import Obligation
from pyvc.engine import Undecided, zi, zb, zor, zand
from aas_test_engines import reflect as R
from aas_test_engines.result import AasTestResult, Level
from aas_test_engines.test_cases.v3_0 import parse as P, adapter as A


# ------------------------------------------------ specification vocabulary
# (uninterpreted: every adapter value and every nested type is arbitrary)
def is_object(v): ...
def members(v): ...
def is_list(v, allow_empty): ...
def items(v): ...
def is_string(v): ...
def text(v): ...
def is_bool(v): ...
def truth(v): ...
def has_model_type(v): ...
def model_type(v): ...
def conforms(t, v): ...
def value_of(t, v): ...
def fits(t, s): ...
def fitted(t, s): ...
def needs_model_type(c): ...
def camel(s): ...
def marker(): ...


def grows(level, bad): return max(level.value, Level.ERROR.value if bad else Level.INFO.value)


def h_leaf(kind, t, v, level):
    """strings, booleans, enumerations and constrained strings"""
    res = AasTestResult("r", level)
    if kind == 0: r, good, want = P.parse_string(v, res), is_string(v), text(v)
    elif kind == 1: r, good, want = P.parse_bool(v, res), is_bool(v), truth(v)
    elif kind == 2: r, good, want = P.parse_enum(t, v, res), is_string(v) and fits(t, text(v)), fitted(t, text(v))
    else: r, good, want = P.parse_string_formatted_value(t, v, res), is_string(v) and fits(t, text(v)), fitted(t, text(v))
    check("one error exactly when the value does not conform", len(res.sub_results) == (0 if good else 1) and res.level.value == grows(level, not good))
    if good: check("otherwise its value", r == want)


def h_list(item, v, level, empty):
    res = AasTestResult("r", level)
    r = P.parse_list(item, v, res, empty)
    if not is_list(v, empty):
        check("not a list or not allowed to be empty: one error", len(res.sub_results) == 1 and res.level.value == grows(level, True))
        return
    xs = items(v)
    good = all(conforms(item.item_type, x) for x in xs)
    check("error exactly when some item does not conform", res.level.value == grows(level, not good))
    check("the findings of every item", len(res.sub_results) == len([x for x in xs if not conforms(item.item_type, x)]))
    check("every item in order", r == [value_of(item.item_type, x) for x in xs])


def name_of(f): return f.force_name or camel(f.name)


def h_concrete(cls, v, level):
    res = AasTestResult("r", level)
    r = P.parse_concrete_object(cls, v, res)
    if not is_object(v):
        check("not an object: one error", len(res.sub_results) == 1 and res.level.value == grows(level, True))
        return
    m = members(v)
    wrong = needs_model_type(cls.cls) and not (has_model_type(v) and model_type(v) == cls.cls.__name__)
    missing = any(f.required and name_of(f) not in m for f in cls.attrs)
    broken = any(name_of(f) in m and not conforms(f.type, m[name_of(f)]) for f in cls.attrs)
    unknown = any(all(name_of(f) != k for f in cls.attrs) for k in m.keys())
    check("error exactly for a wrong model type, a missing, unknown or non-conforming attribute", res.level.value == grows(level, wrong or missing or broken or unknown))


def h_values(cls, v, res, i):
    """for any attribute (the i-th), whatever happens to the result"""
    r = P.parse_concrete_object(cls, v, res)
    assume(is_object(v) and 0 <= i and i < len(cls.attrs))
    m = members(v)
    f = cls.attrs[i]
    if name_of(f) in m: check("the object is constructed with every present attribute", r[f.name] == value_of(f.type, m[name_of(f)]))
    elif not f.required: check("and with absent optional ones unset", r[f.name] is None)


def h_findings(cls, v, level):
    """no finding suppresses another one"""
    res = AasTestResult("r", level)
    P.parse_concrete_object(cls, v, res)
    assume(is_object(v))
    m = members(v)
    wrong = needs_model_type(cls.cls) and not (has_model_type(v) and model_type(v) == cls.cls.__name__)
    faults = [f for f in cls.attrs if (f.required if name_of(f) not in m else not conforms(f.type, m[name_of(f)]))]
    unknown = [k for k in m.keys() if all(name_of(f) != k for f in cls.attrs)]
    check("one finding per fault", len(res.sub_results) == (1 if wrong else 0) + len(faults) + len(unknown))


def h_abstract(cls, v, level):
    res = AasTestResult("r", level)
    r = P.parse_abstract_object(cls, v, res)
    good = has_model_type(v) and any(s.cls.__name__ == model_type(v) and conforms(s, v) for s in cls.subclasses)
    check("error exactly unless the model type names a subclass and the value conforms to it", res.level.value == grows(level, not good))
    check("one finding", len(res.sub_results) == (0 if good else 1))
    if good: check("parsed as that subclass", any(s.cls.__name__ == model_type(v) and r == value_of(s, v) for s in cls.subclasses))


def h_parse(t, v, level):
    res = AasTestResult("r", level)
    r = P.parse(t, v, res)
    good = conforms(t, v)
    check("error exactly when the value does not conform", res.level.value == grows(level, not good))
    if not isinstance(t, R.AnyType): check("its value", r == value_of(t, v))
    else: check("any value is kept", r is v)


# -------------------------------------------------------------- symbolic side
VAL = TAbs("adapter", attrs={"path": TOpaque()})
ATTR = TAbs("attribute", attrs={"name": TStr(), "type": TAbs("type"), "required": TBool(), "force_name": TOpt(TStr())})
PYCLS = TAbs("pyclass", attrs={"__name__": TStr()})
MARK = object()


def U_of(e, v): return e.resolve(v).t


def adapter_models(eng):
    app = lambda n, s, *ts: eng.app(n, ts, s)
    def may(pred, ok):
        def m(e, o, a, k):
            if e.branch(pred(e, o, a, k)): return ok(e, o, a, k)
            e.raise_(A.AdapterException, "not of this kind")
        return m
    def obj(t):
        n = app("members.n", I, t)
        eng.assume(n >= 0)
        key = lambda i: app("members.key", eng.S, t, zi(i))
        idx = lambda s: app("members.idx", I, t, s)
        i = z3.Int("mi")
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), idx(key(i)) == i)))
        has = lambda k: z3.And(idx(eng.st(k)) >= 0, idx(eng.st(k)) < n, key(idx(eng.st(k))) == eng.st(k))
        return SMap(n, key, has, lambda k: SObj(app("member", U, t, eng.st(k)), VAL))
    def lst(t):
        n = app("items.n", I, t)
        eng.assume(n >= 0)
        return SList(n, lambda i: SObj(app("item", U, t, zi(i)), VAL))
    def emp(a, k): return k["allow_empty"] if "allow_empty" in k else a[0]
    def p_list(t, allow):
        b = eng.truth_val(allow)
        return z3.And(app("is_list", B, t), z3.Or(zb(b), app("items.n", I, t) > 0))
    VAL.methods.update({
        "as_object": may(lambda e, o, a, k: app("is_object", B, o.t), lambda e, o, a, k: obj(o.t)),
        "as_list": may(lambda e, o, a, k: p_list(o.t, emp(a, k)), lambda e, o, a, k: lst(o.t)),
        "as_string": may(lambda e, o, a, k: app("is_string", B, o.t), lambda e, o, a, k: SStr(app("text", e.S, o.t))),
        "as_bool": may(lambda e, o, a, k: app("is_bool", B, o.t), lambda e, o, a, k: SBool(app("truth", B, o.t))),
        "get_model_type": may(lambda e, o, a, k: app("has_mt", B, o.t), lambda e, o, a, k: SStr(app("mt", e.S, o.t))),
    })
    M = eng.models
    one = lambda n, f: (lambda e, a, k: f(e.resolve(a[0]).t))
    M[is_object] = lambda e, a, k: SBool(app("is_object", B, U_of(e, a[0])))
    M[members] = lambda e, a, k: obj(U_of(e, a[0]))
    M[is_list] = lambda e, a, k: SBool(p_list(U_of(e, a[0]), a[1]))
    M[items] = lambda e, a, k: lst(U_of(e, a[0]))
    M[is_string] = lambda e, a, k: SBool(app("is_string", B, U_of(e, a[0])))
    M[text] = lambda e, a, k: SStr(app("text", e.S, U_of(e, a[0])))
    M[is_bool] = lambda e, a, k: SBool(app("is_bool", B, U_of(e, a[0])))
    M[truth] = lambda e, a, k: SBool(app("truth", B, U_of(e, a[0])))
    M[has_model_type] = lambda e, a, k: SBool(app("has_mt", B, U_of(e, a[0])))
    M[model_type] = lambda e, a, k: SStr(app("mt", e.S, U_of(e, a[0])))
    M[conforms] = lambda e, a, k: SBool(app("conforms", B, U_of(e, a[0]), U_of(e, a[1])))
    M[value_of] = lambda e, a, k: Opaque(app("value", U, U_of(e, a[0]), U_of(e, a[1])))
    M[fits] = lambda e, a, k: SBool(app("fits", B, U_of(e, a[0]), e.st(a[1])))
    M[fitted] = lambda e, a, k: Opaque(app("fitted", U, U_of(e, a[0]), e.st(a[1])))
    M[needs_model_type] = lambda e, a, k: SBool(app("needs_mt", B, U_of(e, a[0])))
    if hasattr(P, "has_requires_model_type"): M[P.has_requires_model_type] = M[needs_model_type]
    M[camel] = lambda e, a, k: SStr(app("camel", e.S, e.st(e.resolve(a[0]))))
    if hasattr(P, "to_lower_camel_case"): M[P.to_lower_camel_case] = M[camel]
    def construct(e, o, a, k):
        if e.branch(app("fits", B, o.t, e.st(a[0]))): return Opaque(app("fitted", U, o.t, e.st(a[0])))
        e.raise_(ValueError, "does not fit")
    for td in LEAFT.values(): td.methods["construct"] = construct


def nested(e, a, k):
    """contract of parsing a nested value: one finding (an ERROR) is recorded
    exactly when it does not conform; nothing escapes"""
    t, v, res = e.resolve(a[0]), e.resolve(a[1]), a[2]
    if not e.branch(e.app("conforms", (t.t, v.t), B)):
        bad = e.call(AasTestResult, ["nested finding", Level.ERROR], {})
        e.call(e.getattr(res, "append"), [bad], {})
    return Opaque(e.app("value", (t.t, v.t), U))


def setup(eng):
    adapter_models(eng)
    eng.models[P.parse] = nested


def no_post(e, a, k):
    nested(e, a, k)
    t, v = e.resolve(a[0]), e.resolve(a[1])
    return SObj(e.app("value", (t.t, v.t), U), TAbs("parsed", attrs={"post_parse": None}))


def with_post(e, a, k):
    nested(e, a, k)
    t, v = e.resolve(a[0]), e.resolve(a[1])
    def post(e, o, a, k):
        POST[0] += 1
    return SObj(e.app("value", (t.t, v.t), U), TAbs("parsed*", methods={"post_parse": post}))


POST = [0]


SINK = TAbs("sink", methods={"append": lambda e, o, a, k: None})


def setup_values(eng):
    adapter_models(eng)
    eng.models[P.parse] = lambda e, a, k: Opaque(e.app("value", (e.resolve(a[0]).t, e.resolve(a[1]).t), U))


def setup_abstract(eng):
    adapter_models(eng)
    eng.models[P.parse_concrete_object] = nested


def setup_parse(eng):
    adapter_models(eng)
    drop = lambda f: (lambda e, a, k: nested(e, [a[0], a[1], a[2]], {}))
    eng.models[P.parse_concrete_object] = no_post
    for n in ("parse_list", "parse_abstract_object", "parse_enum", "parse_string_formatted_value"): eng.models[getattr(P, n)] = drop(n)
    for n in ("parse_bool", "parse_string"):
        eng.models[getattr(P, n)] = lambda e, a, k: nested(e, [SObj(z3.Const("t", U), TAbs("leaf")), a[0], a[1]], {})


TYPE = TAbs("type")
LEAFT = {"enum": TAbs("EnumType", cls=R.EnumType), "sfv": TAbs("StringFormattedValueType", cls=R.StringFormattedValueType)}
LISTT = TAbs("ListType", attrs={"item_type": TYPE, "allow_empty": TBool()}, cls=R.ListType)
SUBT = TAbs("subtype", attrs={"cls": PYCLS}, cls=R.ClassType)


def mk_class(e):
    """any class type: attributes with distinct names"""
    t = z3.Const("t", U)
    n = z3.Int("attrs.n")
    e.ax.append(n >= 0)
    i, j = z3.Ints("ci cj")
    at = lambda x: e.mk(ATTR, "attr[]", (zi(x),))
    nm = lambda x: e.getattr(at(x), "name").t
    e.ax.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, nm(i) == nm(j)), i == j)))
    td = TAbs("ClassType", attrs={"cls": PYCLS, "attrs": lambda e, o: SList(n, at), "subclasses": TList(SUBT)},
              methods={"construct": lambda e, o, a, k: a[0], "is_abstract": lambda e, o, a, k: SBool(e.app("is_abstract", (o.t,), B))}, cls=R.ClassType)
    return SObj(t, td)


def mk_super(e):
    """subclasses have distinct names"""
    o = mk_class(e)
    n = z3.Int("subs.n")
    e.ax.append(n >= 0)
    i, j = z3.Ints("si sj")
    at = lambda x: e.mk(SUBT, "sub[]", (zi(x),))
    nm = lambda x: e.getattr(e.getattr(at(x), "cls"), "__name__").t
    e.ax.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, nm(i) == nm(j)), i == j)))
    o.td.attrs["subclasses"] = lambda e, o: SList(n, at)
    return o


def mk_any(cls, **attrs):
    return lambda e: SObj(z3.Const("t", U), TAbs(cls.__name__, attrs=attrs, cls=cls))


MODULES = ["aas_test_engines.test_cases.v3_0.parse"]
O = Obligation
V = ("v", VAL)
L = ("level", TEnum(Level))
USES = {"c01": None, "c02": None, "c07": [" as "], "c27": None}  # contracts of callees this property rests on

OBLIGATIONS = []


# ------------------------------------------------------- concrete documents
def lower_camel(s):
    head, *rest = s.split("_")
    return head + "".join(w[:1].upper() + w[1:] for w in rest)


def accepts(f, *a):
    try: return True, f(*a)
    except ValueError: return False, None


def judge(t, d):
    """(number of findings, value) of a JSON document d against a reflected type"""
    if isinstance(t, R.ListType):
        if not isinstance(d, list) or (not d and not t.allow_empty): return 1, None
        rs = [judge(t.item_type, x) for x in d]
        return sum(n for n, _ in rs), [v for _, v in rs]
    if isinstance(t, R.ClassType):
        if t.is_abstract():
            if not isinstance(d, dict) or "modelType" not in d: return 1, None
            for s in t.subclasses:
                if s.cls.__name__ == d["modelType"]: return judge_object(s, d)
            return 1, None
        return judge_object(t, d)
    if isinstance(t, R.BoolType): return (0, d) if isinstance(d, bool) else (1, None)
    if isinstance(t, R.AnyType): return 0, ("any", d)
    if not isinstance(d, str): return 1, None
    if isinstance(t, R.StringType): return 0, d
    if isinstance(t, R.EnumType): return (0, ("enum", d)) if d in [x.value for x in t.cls] else (1, None)
    ok, _ = accepts(t.cls, d)
    return (0, ("str", d)) if ok else (1, None)


def judge_object(t, d):
    if not isinstance(d, dict): return 1, None
    n = 0
    if hasattr(t.cls, "_requires_model_type") and d.get("modelType", None) != t.cls.__name__: n += 1
    names, vals = {"modelType"}, {}
    for a in t.attrs:
        key = a.force_name or lower_camel(a.name)
        names.add(key)
        if key not in d or key == "modelType":
            if a.required: n += 1
            vals[a.name] = None
        else:
            k, vals[a.name] = judge(a.type, d[key])
            n += k
    n += len([k for k in d if k not in names])
    return n, (t.cls, vals)


def agrees(got, want):
    if isinstance(want, tuple) and want[0] == "any": return got.value == want[1]
    if isinstance(want, tuple) and want[0] == "enum": return isinstance(got, enum.Enum) and got.value == want[1]
    if isinstance(want, tuple) and want[0] == "str": return isinstance(got, R.StringFormattedValue) and got.raw_value == want[1]
    if isinstance(want, tuple): return type(got) is want[0] and all(agrees(getattr(got, k), v) for k, v in want[1].items())
    if isinstance(want, list): return isinstance(got, list) and len(got) == len(want) and all(agrees(g, w) for g, w in zip(got, want))
    return type(got) is type(want) and got == want


def h_document(t, doc):
    res = AasTestResult("r")
    got = P.parse(t, A.JsonAdapter(doc, A.AdapterPath()), res)
    n, want = judge(t, doc)
    check("error exactly when the document does not conform", res.ok() == (n == 0))
    check("one finding per fault", len(res.sub_results) == n)
    if n == 0: check("the object carries exactly the values of the document", agrees(got, want))


def model():
    from aas_test_engines.test_cases.v3_0 import model as M
    global _model
    if _model is None: _model = R.reflect(M.Environment, M.__dict__)[1].symbols
    return _model


_model = None


def h_model_document(name, doc):
    h_document(model()[name], doc)


def h_world_document(w, i, doc):
    from contracts.c27 import Built
    b = Built(w)
    t, table = R.reflect(b.classes[i], {}, b.scope)
    h_document(t, doc)


GARBAGE = [None, 5, 1.5, True, False, "", "x", [], {}, [[]], {"modelType": "Property"}, {"modelType": 3}, "true", ["a", 1], {"x": 1}]


def gen_doc(g, t, p, depth=0):
    r = g.r
    if depth == 0: g.left = 3000
    g.left -= 1
    if g.left < 0: return None        # required attributes of recursive classes grow exponentially
    if r.random() < p: return copy.deepcopy(r.choice(GARBAGE))
    if isinstance(t, R.ListType):
        n = 0 if depth > 9 else r.choice([0, 1, 1, 2, 3]) if t.allow_empty else r.choice([1, 1, 2])
        return [gen_doc(g, t.item_type, p, depth + 1) for _ in range(n)]
    if isinstance(t, R.ClassType):
        if t.is_abstract():
            if not t.subclasses: return {}
            t = r.choice(t.subclasses)
            mt = True
        else: mt = hasattr(t.cls, "_requires_model_type") or r.random() < 0.1
        d = {}
        if mt and r.random() > p: d["modelType"] = t.cls.__name__ if r.random() > p / 2 else r.choice(["Nope", "Property", 7])
        for a in t.attrs:
            if a.required and r.random() > p / 2 or not a.required and r.random() < (0.3 if depth < 5 else 0.05):
                if depth > 14: continue
                d[a.force_name or lower_camel(a.name)] = gen_doc(g, a.type, p, depth + 1)
        if r.random() < p: d[r.choice(["extra", "modeltype", "value", "idshort", "id_short", "description", ""])] = r.choice(GARBAGE)
        if r.random() < 0.1: d = dict(reversed(list(d.items())))
        return d
    if isinstance(t, R.BoolType): return r.random() < 0.5
    if isinstance(t, R.AnyType): return r.choice(GARBAGE)
    if isinstance(t, R.EnumType): return r.choice(list(t.cls)).value if r.random() > p else r.choice(["", "x", list(t.cls)[0].name, list(t.cls)[0].value + "\n"])
    if isinstance(t, R.StringType): return r.choice(["", "a", "1", "true", "\u00e4"])
    return r.choice(["a", "en", "1", "de-DE", "http://x/y", "0112/2///61360_4", "a b", "", "a" * 200, "application/json", "\x00", "idShort"])


def gen_model(g):
    m = model()
    names = sorted(k for k, t in m.items() if isinstance(t, R.ClassType)) + ["typing.List[bool]"] * 0
    name = g.r.choice(names)
    return [name, gen_doc(g, m[name], g.r.choice([0, 0, 0.02, 0.1, 0.3]))]


def plain(t):
    if t[0] in ("int", "bytes"): return ("str",)
    if t[0] in ("list", "nelist"): return (t[0], plain(t[1]))
    return t


def gen_world_doc(g):
    from contracts.c27 import gen_world, consistent, Built
    while True:
        w, typ, n = gen_world(g)
        names = set()
        w["classes"] = [(m, f"C{i}", b, a, [(fn, plain(t), *rest) for fn, t, *rest in fs]) for i, (m, nm, b, a, fs) in enumerate(w["classes"])]
        if consistent(w): break
    i = g.r.randrange(n)
    b = Built(w)
    t, _ = R.reflect(b.classes[i], {}, b.scope)
    return [w, i, gen_doc(g, t, g.r.choice([0, 0.05, 0.2]))]


class Limited(R.StringFormattedValue):
    """a constrained string type of any declared limits"""
    def __init__(self, lo, hi, pattern, s):
        self.min_length, self.max_length, self.pattern = lo, hi, pattern
        R.StringFormattedValue.__init__(self, s)


def h_limits(lo, hi, pattern, s):
    ok, v = True, None
    try: v = Limited(lo, hi, pattern, s)
    except ValueError: ok = False
    want = (lo is None or len(s) >= lo) and (hi is None or len(s) <= hi) and re.fullmatch(XML, s) is not None and (pattern is None or re.fullmatch(pattern, s) is not None)
    check("a string is accepted exactly when it has the declared length, serialisable characters and the declared pattern", ok == want)
    if ok: check("the value is the string", v.raw_value == s)


XML = r"[\x09\x0a\x0d\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]*"
PATTERNS = [None, "a*", "[a-z]+", "a|b|ab", "(0|[1-9][0-9]*)", ".*", "\\s*"]


def gen_limits(g):
    r = g.r
    s = r.choice(["", "a", "aa", "ab", "A", "a\n", "\n", " ", "a ", "0", "01", "10", "\x00", "\ufffe", "\U0001f600", "aaaa", "z" * 7])
    return [r.choice([None, 0, 1, 2, len(s), len(s) + 1]), r.choice([None, 0, 1, 2, 5, len(s), max(len(s) - 1, 0)]), r.choice(PATTERNS), s]


def h_names(s):
    check("attribute names are the lower camel case of their Python names", P.to_lower_camel_case(s) == lower_camel(s))


def h_model_names():
    for t in model().values():
        if isinstance(t, R.ClassType):
            for a in t.attrs: check("lower camel case", P.to_lower_camel_case(a.name) == lower_camel(a.name))


def gen_name(g): return ["_".join("".join(g.r.choice("abcxyz019") for _ in range(g.r.randint(1, 5))) for _ in range(g.r.randint(1, 4)))]


PM = "aas_test_engines.test_cases.v3_0.parse:"
C = dict(concrete=h_model_document, gen=gen_model, samples=300)
OBLIGATIONS += [
    O("leaf values", h_leaf, [("kind", TConst(0, 1)), ("t", LEAFT["enum"]), V, L], setup=setup, **C),
    O("enumerations", h_leaf, [("kind", TConst(2)), ("t", LEAFT["enum"]), V, L], setup=setup, **C),
    O("constrained strings", h_leaf, [("kind", TConst(3)), ("t", LEAFT["sfv"]), V, L], setup=setup, **C),
    O("lists", h_list, [("item", LISTT), V, L, ("empty", TBool())], setup=setup, **C),
    O("concrete objects", h_concrete, [("cls", mk_class), V, L], setup=setup, **C),
    O("values of concrete objects", h_values, [("cls", mk_class), V, ("res", SINK), ("i", TInt())], setup=setup_values, **C),
    O("findings of concrete objects", h_findings, [("cls", mk_class), V, L], setup=setup, **C),
    O("abstract objects", h_abstract, [("cls", mk_super), V, L], setup=setup_abstract, **C),
    O("dispatch: lists", h_parse, [("t", mk_any(R.ListType, item_type=TYPE, allow_empty=TBool())), V, L], setup=setup_parse, **C),
    O("dispatch: classes", h_parse, [("t", mk_class), V, L], setup=setup_parse, **C),
    O("dispatch: booleans", h_parse, [("t", mk_any(R.BoolType)), V, L], setup=setup_parse, **C),
    O("dispatch: strings", h_parse, [("t", mk_any(R.StringType)), V, L], setup=setup_parse, **C),
    O("dispatch: enumerations", h_parse, [("t", mk_any(R.EnumType)), V, L], setup=setup_parse, **C),
    O("dispatch: constrained strings", h_parse, [("t", mk_any(R.StringFormattedValueType)), V, L], setup=setup_parse, **C),
    *[O(f"constrained strings: pattern {p!r}", h_limits, [("lo", TOpt(TInt(0))), ("hi", TOpt(TInt(0))), ("pattern", TConst(p)), ("s", TStr())], functions=["aas_test_engines.reflect:StringFormattedValue.__init__"],
        gen=lambda g, p=p: [x if i != 2 else p for i, x in enumerate(gen_limits(g))]) for p in PATTERNS],
    O("documents of the meta-model", h_model_document, gen=gen_model, mode="cross", samples=3000, functions=[PM + "parse"]),
    O("documents of generated classes", h_world_document, gen=gen_world_doc, mode="cross", samples=1500, functions=[PM + "parse"]),
    O("attribute names", h_names, gen=gen_name, mode="bounded", samples=2000, functions=[PM + "to_lower_camel_case"], why="str.capitalize and split of arbitrary names; names of up to 4 words of up to 5 characters"),
    O("attribute names of the meta-model", h_model_names, mode="closed", functions=[PM + "to_lower_camel_case"]),
]
ASSUMPTIONS = ["documents nested deeper than the interpreter's recursion limit are out of scope",
               "the nested calls of the parser are bounded by the finite depth of the document (structural induction)"]
