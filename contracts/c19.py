"""C19: submodel templates."""
import dataclasses, datetime, enum, re, typing
from typing import Dict, List, Optional
import z3
from pyvc.spec import check, assume
from pyvc.values import *
from pyvc.tds import *
from pyvc.driver import Obligation
from pyvc import smt
from pyvc.engine import Undecided, PyRaise, zi
from contracts.support import known
from aas_test_engines.result import AasTestResult, Level
from aas_test_engines.test_cases.v3_0 import parse_submodel as PS, submodel_templates as ST, model as M, json_to_obj
from aas_test_engines.test_cases.v3_0.adapter import AdapterPath


# ---------------------------------------------------------------- conversions
def plain_date(s):
    """an xs:date without time zone whose year has four digits: all that datetime.date can hold"""
    return re.fullmatch(r"[0-9]{4}-(0[1-9]|1[0-2])-(0[1-9]|[12][0-9]|3[01])", s) is not None


def kind(e):
    return "property" if isinstance(e, M.Property) else "language" if isinstance(e, M.MultiLanguageProperty) else "other"


def h_convert(element, target, level, path):
    """target: 0 string, 1 date, 2 language string"""
    assume(level.value < Level.ERROR.value)
    res = AasTestResult("r", level)
    if target == 0:
        ok = kind(element) == "property" and element.value is not None and element.value_type is M.DataTypeDefXsd.string
        v = PS._parse_string(res, element, path)
    elif target == 1:
        ok = kind(element) == "property" and element.value is not None and element.value_type is M.DataTypeDefXsd.date
        if ok and known("C19-dates"): assume(plain_date(element.value.raw_value))
        v = PS._parse_date(res, element, path)
    else:
        ok = kind(element) == "language" and element.value is not None and len(element.value) > 0
        v = PS._parse_lang_string(res, element, path)
    check("accepted exactly when the element is of that kind with a value of that type", res.ok() == ok)
    if ok: check("nothing is reported then", len(res.sub_results) == 0 and res.level == level)
    else: check("one ERROR otherwise", len(res.sub_results) == 1 and res.level.name == "ERROR")
    if ok and target == 0: check("the string itself", v == element.value.raw_value)


def h_enum(element, level, path):
    assume(level.value < Level.ERROR.value)
    res = AasTestResult("r", level)
    PS._parse_enum(res, ST.TypeOfFaxNumber, element, path)
    ok = kind(element) == "property" and element.value is not None and element.value_type is M.DataTypeDefXsd.string and element.value.raw_value in ("0173-1#07-AAS754#001", "0173-1#07-AAS756#001", "0173-1#07-AAS758#001")
    check("accepted exactly when it is a string of the enumeration", res.ok() == ok)
    if not ok: check("one ERROR otherwise", len(res.sub_results) == 1 and res.level.name == "ERROR")


VALUE = TAbs("value", attrs={"raw_value": TStr()}, methods={"__str__": lambda e, o, a, k: e.getattr(o, "raw_value")})
LS = TAbs("text", attrs={"language": TStr(), "text": TStr()})
PATH = TAbs("path", methods={"__str__": lambda e, o, a, k: SStr(e.app("path.str", (o.t,), e.S))})


def mk_element(e):
    p = e.mk(TAbs("property", attrs={"value": TOpt(VALUE), "value_type": TEnum(M.DataTypeDefXsd)}, cls=M.Property), "el")
    l = e.mk(TAbs("multi", attrs={"value": TOpt(TList(LS))}, cls=M.MultiLanguageProperty), "el")
    o = e.mk(TAbs("other", attrs={}, cls=M.SubmodelElementCollection), "el")
    k = z3.Int("el.kind")
    e.assume(z3.And(k >= 0, k < 3))
    return e.mk_union([(k == i, x) for i, x in enumerate((p, l, o))])


def setup(eng):
    def iso(e, a, k):
        s = a[0]
        if e.branch(e.truth_val(e.call(plain_date, [s], {}))): return Opaque(e.app("date", (e.st(e.resolve(s)),), U))
        e.raise_(ValueError, "no date")
    eng.models[datetime.date.fromisoformat] = iso


# -------------------------------------------------------------- cardinalities
def h_unwrap():
    """every shape of annotation the templates use"""
    class E(enum.Enum): A = "a"
    inf = float("inf")
    for t in (str, datetime.date, E, ST.Phone):
        check("T", PS._unwrap(t) == (1, 1, t))
        check("Optional[T]", PS._unwrap(Optional[t]) == (0, 1, t))
        check("List[T]", PS._unwrap(List[t]) == (1, inf, t))
        check("Optional[List[T]]", PS._unwrap(Optional[List[t]]) == (0, inf, t))
    check("language strings", PS._unwrap(Dict[str, str]) == (1, 1, PS.LangString) and PS._unwrap(Optional[Dict[str, str]]) == (0, 1, PS.LangString))


def cardinality(t):
    lo, hi = 1, 1
    if typing.get_origin(t) is typing.Union:
        t, = [x for x in typing.get_args(t) if x is not type(None)]
        lo = 0
    if typing.get_origin(t) is list: t, hi = typing.get_args(t)[0], None
    return lo, hi, t


def h_fields():
    def walk(cls, seen):
        if cls in seen: return
        seen.add(cls)
        ids = [f.metadata["semantic_id"] for f in dataclasses.fields(cls)]
        check(f"{cls.__name__}: distinct semantic ids", len(ids) == len(set(ids)))
        for f in dataclasses.fields(cls):
            lo, hi, t = cardinality(f.type)
            a, b, u = PS._unwrap(f.type)
            check(f"{cls.__name__}.{f.name}: cardinality", (a, b, u) == (lo, float("inf") if hi is None else hi, t))
            if dataclasses.is_dataclass(t): walk(t, seen)
    for cls in ST.templates.values(): walk(cls, set())
    check("the supported templates", set(ST.supported_templates()) == set(ST.templates))


# --------------------------------------------------------------------- driver
def template_of(sid): return ST.templates.get(sid)
def conversion_level(s): ...
def constraint_level(s): ...


def h_driver(env, level):
    res = AasTestResult("r", level)
    ST.parse_submodel_templates(res, env)
    subs = [s for s in (env.submodels or []) if s.semantic_id is not None and s.semantic_id.keys and s.semantic_id.keys[0].value.raw_value in TEMPLATES]
    check("one result per submodel with a supported template, in order", len(res.sub_results) == len(subs))
    want = [max(conversion_level(s).value, constraint_level(s).value if conversion_level(s).value < Level.ERROR.value else 0) for s in subs]
    check("at the severity of its worst deviation", [r.level.value for r in res.sub_results] == want)
    check("and all count", all(res.level.value >= w for w in want) and (len(want) > 0 or res.level == level))


TEMPLATES = sorted(ST.templates)
KEY = TAbs("key", attrs={"value": TAbs("raw", attrs={"raw_value": TStr()})})
SM = TAbs("submodel", attrs={"semantic_id": TOpt(TAbs("reference", attrs={"keys": TList(KEY)}, methods={"__bool__": lambda e, o, a, k: True})), "id": TAbs("id", methods={"__str__": lambda e, o, a, k: SStr(e.app("id.str", (o.t,), e.S))})})
ENV = TAbs("env", attrs={"submodels": TOpt(TList(SM))})


def setup_driver(eng):
    MM = eng.models
    def lv(e, nm, o):
        t = e.app(nm, (o.t,), I)
        return SEnum(Level, z3.If(z3.And(t >= 0, t < 4), t, 0))
    PARSED = TAbs("parsed")
    def parse(e, a, k):
        r, cls, s = a[0], a[1], e.resolve(a[2])
        e.call(e.getattr(r, "append"), [e.call(AasTestResult, ["x"], {"level": lv(e, "conversion", s)})], {})
        return SObj(e.app("parsed", (s.t,), U), PARSED)
    def cc(e, a, k):
        p = e.resolve(a[0])
        if p.t.decl().name() != "parsed": raise Undecided("constraints of something else")
        s = SObj(p.t.arg(0), SM)
        e.call(e.getattr(a[1], "append"), [e.call(AasTestResult, ["x"], {"level": lv(e, "constraints", s)})], {})
    MM[PS.parse_submodel] = parse
    MM[ST.check_constraints] = cc
    MM[conversion_level] = lambda e, a, k: lv(e, "conversion", e.resolve(a[0]))
    MM[constraint_level] = lambda e, a, k: lv(e, "constraints", e.resolve(a[0]))


# ------------------------------------------------------------------- matching
def lowest(f): return 0
def highest(f): return None
def unfit(f, e): return False
def sid(f): return ""


def number(elements, f): return 0
def carries(e, f): return e.semantic_id is not None and e.semantic_id.keys[0].value.raw_value == sid(f)


def matches(elements, f):
    n = number(elements, f)
    return n >= lowest(f) and (highest(f) is None or n <= highest(f)) and not any(carries(e, f) and unfit(f, e) for e in elements)


def h_elements(cls, flds, elements, path, level):
    """_parse_elements against the contracts of _unwrap and _parse, for a template with any fields"""
    assume(level.value < Level.ERROR.value)
    res = AasTestResult("r", level)
    PS._parse_elements(res, cls, elements, path)
    check("compliant exactly when every field matches", res.ok() == all(matches(elements, f) for f in flds))
    check("deviations are errors", res.level.name == "ERROR" or res.level == level)
    check("the template is constructed from all its fields", all(f.name in built() for f in flds))


def built(): return {}


ELEMENT = TAbs("element", attrs={"semantic_id": TOpt(TAbs("reference", attrs={"keys": TList(KEY, min=1)}, methods={"__bool__": lambda e, o, a, k: True}))})
META = TAbs("metadata", methods={"__getitem__": lambda e, o, a, k: SStr(e.app("field.sid", (o.t,), e.S))})
FIELD = TAbs("field", attrs={"name": TStr(), "type": TAbs("annotation"), "metadata": META})
CPATH = TAbs("path", methods={"__str__": PATH.methods["__str__"], "__add__": lambda e, o, a, k: SObj(e.fresh("path", U), CPATH)})


def setup_elements(eng):
    MM = eng.models
    st = {}
    def construct(e, o, a, k):
        if a or list(k) != ["**"]: raise Undecided("template constructed otherwise")
        st["args"] = k["**"]
        return Opaque(e.fresh("template", U))
    eng.template = SObj(z3.Const("cls", U), TAbs("template", methods={"__call__": construct}))
    MM[built] = lambda e, a, k: st["args"]
    n = z3.Int("fields.n")
    eng.ax.append(n >= 0)
    eng.flds = SList(n, lambda i: SObj(eng.app("fields[]", (zi(i),), U), FIELD))
    def sid_(e, f): return e.getitem(e.getattr(f, "metadata"), "semantic_id")
    MM[sid] = lambda e, a, k: sid_(e, e.resolve(a[0]))
    i, j = z3.Ints("fi fj")
    eng.ax.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), eng.st(sid_(eng, eng.flds.nth(i))) != eng.st(sid_(eng, eng.flds.nth(j))))))
    def req(e, t): return e.app("required", (t,), B)
    def many(e, t): return e.app("many", (t,), B)
    ty = lambda e, a: e.getattr(e.resolve(a[0]), "type").t
    MM[lowest] = lambda e, a, k: 1 if e.branch(req(e, ty(e, a))) else 0
    MM[highest] = lambda e, a, k: None if e.branch(many(e, ty(e, a))) else 1
    bad = lambda e, t, el: SBool(e.app("unfit", (t, el.t), B))
    MM[unfit] = lambda e, a, k: bad(e, ty(e, a), e.resolve(a[1]))
    TYPE = TAbs("type")
    def unwrap(e, a, k):
        t = e.resolve(a[0])
        lo = 1 if e.branch(req(e, t.t)) else 0
        hi = float("inf") if e.branch(many(e, t.t)) else 1
        return (lo, hi, SObj(t.t, TYPE))
    def parse(e, a, k):
        t, el = e.resolve(a[0]), e.resolve(a[1])
        if e.truth(bad(e, t.t, el)): e.call(e.getattr(a[2], "append"), [e.call(AasTestResult, ["x"], {"level": Level.ERROR})], {})
        return Opaque(e.app("parsed", (t.t, el.t), U))
    MM[PS._unwrap] = unwrap
    MM[PS._parse] = parse
    MM[dataclasses.fields] = lambda e, a, k: e.flds
    count_setup(eng)
    MM[PS.to_camel_case] = lambda e, a, k: SStr(e.app("camel", (e.st(e.resolve(a[0])),), e.S))


def count_setup(eng):
    """number(elements, f) by recursion over the elements: count(s, 0) = 0, count(s, j + 1) = count(s, j) + [elements[j] carries s]"""
    els = eng.mk(TList(ELEMENT), "elements")
    n = zi(els.n)
    count = lambda s, j: eng.app("count", (s, zi(j)), I)
    def cond(s, j):
        el = els.nth(j).t
        r = eng.app("element.semantic_id", (el,), U)
        key = eng.app("reference.keys[]", (r, zi(0)), U)
        return z3.And(z3.Not(eng.app("element.semantic_id?none", (el,), B)), eng.app("raw.raw_value", (eng.app("key.value", (key,), U),), eng.S) == s)
    s, i, j = z3.Const("cs", eng.S), z3.Int("ci"), z3.Int("cj")
    rng = z3.And(j >= 0, j < n)
    defs = [z3.ForAll([s], count(s, 0) == 0, patterns=[count(s, 0)]),
            z3.ForAll([s, j], z3.Implies(rng, count(s, j + 1) == count(s, j) + z3.If(cond(s, j), 1, 0)), patterns=[count(s, j + 1)])]
    def lemma(name, pre, goal):
        r = smt.check_valid(eng, [n >= 0] + defs + pre, goal, 8000)
        if r != "valid": raise Undecided("lemma " + name)
        eng.obligations.append(("lemma", name, r))
    # by induction over j: no count falls, and a count is zero exactly if nothing before carries the id
    mono = lambda s, i, j: z3.Implies(z3.And(0 <= i, i <= j, j <= n), count(s, i) <= count(s, j))
    none = lambda s, j: (count(s, j) == 0) == z3.Not(z3.Exists([i], z3.And(i >= 0, i < j, cond(s, i))))
    lemma("counts do not fall: base", [], mono(s, i, z3.IntVal(0)))
    lemma("counts do not fall: step", [rng, mono(s, i, j)], z3.Or(i > j, mono(s, i, j + 1)))
    lemma("counts of nothing: base", [], none(s, z3.IntVal(0)))
    lemma("counts of nothing: step", [rng, z3.ForAll([s, i, j], mono(s, i, j)), none(s, j)], none(s, j + 1))
    k = z3.Int("ck")
    once = lambda s: z3.Implies(count(s, n) <= 1, z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < n, cond(s, i), 0 <= k, k < n, cond(s, k)), i == k)))
    M = [z3.ForAll([s, i, j], mono(s, i, j), patterns=[z3.MultiPattern(count(s, i), count(s, j))])]
    lemma("counts of one", M + [0 <= i, i < n, cond(s, i), 0 <= k, k < n, cond(s, k), i < k, count(s, i + 1) == count(s, i) + 1, count(s, k + 1) == count(s, k) + 1, count(s, 0) == 0, count(s, i) >= 0, count(s, k) >= count(s, i + 1), count(s, n) >= count(s, k + 1)], count(s, n) > 1)
    eng.ax += [z3.ForAll([s], z3.And(count(s, n) >= 0, none(s, n), once(s)), patterns=[count(s, n)])]
    eng.models[number] = lambda e, a, k: SInt(count(e.st(e.call(sid, [a[1]], {})), n))
    canon = z3.Int("fm.j")
    def known_count(e, m, tot, cn):
        if not m.eq(n): return None
        todo, sids = [tot], []
        while todo:
            t = todo.pop()
            if z3.is_app(t) and t.decl().name() == "field.sid": sids.append(t)
            else: todo += t.children()
        if not sids: return None
        if not e.same_shape(tot, z3.If(cond(sids[0], cn), z3.IntVal(1), z3.IntVal(0)), [cn >= 0, cn < n]): return None
        return lambda x: count(sids[0], x)
    eng.fm_defs.append(known_count)


class Sample(enum.Enum):
    A = "a"


TYPES = [str, datetime.date, PS.LangString, ST.Phone, ST.ContactInformation, Sample, ST.TypeOfFaxNumber]
def chosen(): return []
def nested(elements): return False


def h_dispatch(i, element, path, level):
    """_parse against the contracts of the conversions: the one for the type, on that element and result"""
    res = AasTestResult("r", level)
    PS._parse(TYPES[i], element, res, path)
    check("the conversion to the type", chosen() == [["string", "date", "lang", "collection", "collection", "enum", "enum"][i]])


def h_nested(element, path, level):
    """collections and submodels against the contract of _parse_elements"""
    assume(level.value < Level.ERROR.value)
    res = AasTestResult("r", level)
    PS._parse_element_collection(res, ST.Phone, element, path)
    if element.value is None: check("a collection without elements is an error", res.level.name == "ERROR" and len(res.sub_results) == 1)
    else: check("its elements are matched", res.ok() == nested(element.value) and (res.level.name == "ERROR" or res.level == level))


def h_submodel(submodel, level):
    assume(level.value < Level.ERROR.value)
    if known("C19-no-elements"): assume(submodel.submodel_elements is not None)
    res = AasTestResult("r", level)
    PS.parse_submodel(res, ST.Phone, submodel)
    check("its elements are matched", res.ok() == nested([] if submodel.submodel_elements is None else submodel.submodel_elements) and (res.level.name == "ERROR" or res.level == level))


COLL = TAbs("collection", attrs={"value": TOpt(TList(ELEMENT))}, cls=M.SubmodelElementCollection)
SUBM = TAbs("submodel", attrs={"submodel_elements": TOpt(TList(ELEMENT))}, cls=M.Submodel)


def setup_nested(eng):
    def ok(e, a):
        v = e.resolve(a)
        return e.app("matched", (v.nth(z3.IntVal(0)).t,), B) if isinstance(v, SList) else e.app("matched", (z3.Const("nothing", U),), B)
    def elements(e, a, k):
        if a[1] is not ST.Phone: raise Undecided("another template")
        if e.resolve(a[2]) is None: e.raise_(TypeError, "not iterable")
        if not e.branch(ok(e, a[2])): e.call(e.getattr(a[0], "append"), [e.call(AasTestResult, ["x"], {"level": Level.ERROR})], {})
        return Opaque(e.fresh("template", U))
    eng.models[PS._parse_elements] = elements
    eng.models[nested] = lambda e, a, k: SBool(ok(e, a[0]))
    eng.models[AdapterPath] = lambda e, a, k: SObj(e.fresh("path", U), CPATH)


def setup_dispatch(eng):
    log = []
    def stub(name, ie):
        def m(e, a, k):
            log.append(name if e.resolve(a[ie]) is e.el_ else "other element")
            return Opaque(e.fresh("v", U))
        return m
    for name, f, ie in (("string", PS._parse_string, 1), ("date", PS._parse_date, 1), ("lang", PS._parse_lang_string, 1), ("collection", PS._parse_element_collection, 2), ("enum", PS._parse_enum, 2)):
        eng.models[f] = stub(name, ie)
    def seen(e, a, k):
        r = e.new_list(list(log))
        del log[:]
        return r
    eng.models[chosen] = seen
    eng.el_ = SObj(z3.Const("el", U), TAbs("element"))


# -------------------------------------------------------- whole documents
DATES_OK = ["2020-01-31", "1999-12-01", "0001-01-01", "2024-02-29"]
DATES_TZ = ["2020-01-31Z", "2020-01-31+01:00", "12020-01-31", "-0001-01-31"]


def ref(sid): return {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": sid}]}


def fill(g, cls, bad, depth=0):
    """elements for cls and whether they conform; bad: chance of a deviation per field"""
    r = g.r
    els, good = [], True
    for f in dataclasses.fields(cls):
        lo, hi, t = cardinality(f.type)
        n = r.choice([lo, lo, 1, 1 if hi == 1 else r.randint(lo, 3)])
        if r.random() < bad: n = r.choice([0, 2, 3])
        good = good and n >= lo and (hi is None or n <= hi)
        sub_good = True
        for _ in range(n):
            el, ok = element(g, t, bad, depth)
            el["semanticId"] = ref(f.metadata["semantic_id"])
            sub_good = sub_good and ok
            els.append(el)
        if n >= lo and (hi is None or n <= hi): good = good and sub_good
    if r.random() < 0.3: els.append({"modelType": "Capability", "semanticId": ref("something else")})
    if r.random() < 0.3: els.append({"modelType": "Property", "valueType": "xs:int", "value": "1"})
    r.shuffle(els)
    for i, e in enumerate(els): e["idShort"] = f"e{depth}_{i}"
    return els, good


def element(g, t, bad, depth):
    r = g.r
    dev = r.random() < bad
    if dataclasses.is_dataclass(t):
        if dev:
            if known("C19-collections"): return {"modelType": "SubmodelElementCollection"}, False
            return r.choice([{"modelType": "SubmodelElementCollection"}, {"modelType": "Capability"}, {"modelType": "Property", "valueType": "xs:string", "value": "x"}]), False
        els, ok = fill(g, t, bad, depth + 1)
        if not els: return {"modelType": "SubmodelElementCollection"}, False
        return {"modelType": "SubmodelElementCollection", "value": els}, ok
    lang = {"modelType": "MultiLanguageProperty", "value": [{"language": "de", "text": "x"}]}
    text = {"modelType": "Property", "valueType": "xs:string", "value": "x"}
    cap = {"modelType": "Capability"}
    if t == PS.LangString:
        return (r.choice([{"modelType": "MultiLanguageProperty"}, text, cap]), False) if dev else (lang, True)
    if t is datetime.date:
        if dev: return r.choice([text, lang, cap, {"modelType": "Property", "valueType": "xs:date"}, {"modelType": "Property", "valueType": "xs:string", "value": "2020-01-31"}]), False
        return {"modelType": "Property", "valueType": "xs:date", "value": r.choice(DATES_OK + ([] if known("C19-dates") else DATES_TZ))}, True
    if t is str:
        return (r.choice([lang, cap, {"modelType": "Property", "valueType": "xs:string"}, {"modelType": "Property", "valueType": "xs:int", "value": "1"}]), False) if dev else (text, True)
    v = r.choice(list(t)).value
    if dev: return r.choice([text, lang, cap, {"modelType": "Property", "valueType": "xs:string", "value": v.lower()}, {"modelType": "Property", "valueType": "xs:string"}]), False
    return {"modelType": "Property", "valueType": "xs:string", "value": v}, True


def gen_doc(g):
    r = g.r
    subs, want = [], []
    for i in range(r.randint(0, 3)):
        s = {"modelType": "Submodel", "id": f"s{i}"}
        k = r.randrange(6)
        if k == 0: want.append(None)
        elif k == 1: s["semanticId"] = ref("unknown"); want.append(None)
        else:
            sid = r.choice(TEMPLATES)
            cls = ST.templates[sid]
            s["semanticId"] = ref(sid)
            els, ok = fill(g, cls, r.choice([0, 0, 0.02, 0.1]))
            if els: s["submodelElements"] = els
            elif known("C19-no-elements"):
                s["submodelElements"] = [{"modelType": "Capability", "idShort": "x"}]
            if ok and cls is ST.DigitalNameplate:
                ids = {e["semanticId"]["keys"][0]["value"] for e in els if "semanticId" in e}
                ok = "0173-1#02-AAU731#001" in ids or "0173-1#02-AAO057#002" in ids
            want.append(ok)
        subs.append(s)
    return [{"submodels": subs} if subs else {}, want]


def h_documents(doc, want):
    res, env = json_to_obj(doc, "Environment")
    assume(env is not None)
    judged = [x for x in res.sub_results if x.message.startswith("Check submodel")]
    check("one result per submodel with a supported template", len(judged) == len([w for w in want if w is not None]))
    check("compliant exactly when every field matches", [x.ok() for x in judged] == [w for w in want if w is not None])
    check("deviations are errors", all(x.level.name == ("ERROR" if not x.ok() else "INFO") for x in judged))


# ------------------------------------------------------------------- findings
def crashes(doc, exc):
    try: json_to_obj(doc, "Environment")
    except exc: return True
    return False


def sub(els=None, sid="https://admin-shell.io/zvei/nameplate/1/0/ContactInformations"):
    s = {"modelType": "Submodel", "id": "s", "semanticId": ref(sid)}
    if els: s["submodelElements"] = els
    return {"submodels": [s]}


def f_no_elements(): return crashes(sub(), TypeError)
def f_collections(): return crashes(sub([{"modelType": "Capability", "idShort": "c", "semanticId": ref(TEMPLATES[0] + "/ContactInformation")}]), AttributeError)
def f_dates(): return crashes(sub([{"modelType": "Property", "valueType": "xs:date", "value": "2020-01-31Z", "idShort": "c", "semanticId": ref("0173-1#02-AAR972#002")}], "https://admin-shell.io/zvei/nameplate/2/0/Nameplate"), ValueError)


FINDINGS = {"C19-no-elements": f_no_elements, "C19-collections": f_collections, "C19-dates": f_dates}
P = "aas_test_engines.test_cases.v3_0.parse_submodel:"
MODULES = ["aas_test_engines.test_cases.v3_0.parse_submodel", "aas_test_engines.test_cases.v3_0.submodel_templates"]
O = Obligation
USES = {"c01": None, "c02": None}  # contracts of callees this property rests on

OBLIGATIONS = [
    O("conversions", h_convert, [("element", mk_element), ("target", TConst(0, 1, 2)), ("level", TEnum(Level)), ("path", PATH)], setup=setup, concrete=h_documents, gen=gen_doc, samples=200),
    O("enumerations", h_enum, [("element", mk_element), ("level", TEnum(Level)), ("path", PATH)], setup=setup, concrete=h_documents, gen=gen_doc, samples=200),
    O("annotations", h_unwrap, mode="closed", functions=[P + "_unwrap"]),
    O("fields of the templates", h_fields, mode="closed", functions=[P + "_unwrap"]),
    O("submodels", h_driver, [("env", ENV), ("level", TEnum(Level))], setup=setup_driver, concrete=h_documents, gen=gen_doc, samples=200),
    O("elements", h_elements, [("cls", lambda e: e.template), ("flds", lambda e: e.flds), ("elements", TList(ELEMENT)), ("path", CPATH), ("level", TEnum(Level))], setup=setup_elements, concrete=h_documents, gen=gen_doc, samples=200),
    O("types", h_dispatch, [("i", TConst(*range(len(TYPES)))), ("element", lambda e: e.el_), ("path", CPATH), ("level", TEnum(Level))], setup=setup_dispatch, concrete=h_documents, gen=gen_doc, samples=200),
    O("collections", h_nested, [("element", COLL), ("path", CPATH), ("level", TEnum(Level))], setup=setup_nested, concrete=h_documents, gen=gen_doc, samples=200),
    O("elements of submodels", h_submodel, [("submodel", SUBM), ("level", TEnum(Level))], setup=setup_nested, concrete=h_documents, gen=gen_doc, samples=200),
    O("documents", h_documents, gen=gen_doc, mode="cross", samples=1500, functions=[P + "_parse_elements", P + "_parse", P + "_parse_element_collection", P + "parse_submodel"],
      why="the parts together on real documents of up to three submodels with up to three elements per field of every template, deviations in number, kind, type and value"),
]
ASSUMPTIONS = ["elements and references have passed the meta-model checks (C05, C09)", "datetime.date.fromisoformat accepts exactly the xs:date values without time zone and with a four digit year"]
