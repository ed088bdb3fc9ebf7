"""C06: JSON and XML adapters."""
import re
import xml.etree.ElementTree as ET
import z3
from pyvc.spec import check, assume
from pyvc.values import *
from pyvc.tds import *
from pyvc.driver import Obligation
from pyvc.engine import Undecided, zi, zb
from contracts.support import known
from aas_test_engines.test_cases.v3_0 import adapter as A

NS = "{https://admin-shell.io/aas/3/0}"
BLANK = " \t\r\n"


def view(f, *a):
    """('ok', view) or ('error', None); anything else escapes"""
    try:
        return ("ok", f(*a))
    except A.AdapterException:
        return ("error", None)


# ------------------------------------------------------------------------ JSON
def h_json_object(v, path):
    a = A.JsonAdapter(v, path)
    kind, r = view(a.as_object)
    check("an object exactly when it is a JSON object", (kind == "ok") == isinstance(v, dict))
    if kind == "ok":
        keys = [k for k in v.keys() if k != "modelType"]
        check("its members in order except the model type", list(r.keys()) == keys)
        check("each viewing its value", all(r[k].value is v[k] for k in keys))
        check("under its path", all(r[k].path.elements == path.elements + [k] for k in keys))


def h_json_member(v, path, k):
    """for any key k"""
    kind, r = view(A.JsonAdapter(v, path).as_object)
    check("an object exactly when it is a JSON object", (kind == "ok") == isinstance(v, dict))
    if kind == "ok":
        check("its members except the model type", (k in r) == (k in v and k != "modelType"))
        if k in r: check("viewing the value under its path", r[k].value is v[k] and r[k].path.elements == path.elements + [k])


def h_json_list(v, path, empty):
    a = A.JsonAdapter(v, path)
    kind, r = view(a.as_list, empty)
    check("a list exactly when it is a JSON array that may be empty or is not", (kind == "ok") == (isinstance(v, list) and (empty or len(v) > 0)))
    if kind == "ok":
        check("its items in order", [x.value for x in r] == v)
        check("under their paths", all(r[i].path.elements == path.elements + [i] for i in range(len(v))))


def h_json_leaf(v, path):
    a = A.JsonAdapter(v, path)
    kind, r = view(a.as_string)
    check("a string exactly when it is a JSON string", (kind == "ok") == isinstance(v, str))
    if kind == "ok": check("its text", r == v)
    kind, r = view(a.as_bool)
    check("a boolean exactly when it is a JSON boolean", (kind == "ok") == isinstance(v, bool))
    if kind == "ok": check("its truth value", r == v)


def h_json_model_type(v, path):
    a = A.JsonAdapter(v, path)
    kind, r = view(a.get_model_type)
    check("has a model type exactly when it is an object with one", (kind == "ok") == (isinstance(v, dict) and "modelType" in v))
    if kind == "ok": check("its model type", r == v["modelType"])


# ------------------------------------------------------------------------- XML
def kids(el): return list(el)
def blank(t): return t is None or t.strip() == ""
def local(tag): return tag[len(NS):]
def cap(s): return s[0].upper() + s[1:]
def is_content(el): return el.tag.endswith("dataSpecificationContent")
def one(el): return len(kids(el)) == 1
def variable_value(el, c): return cap(local(el.tag)) == "OperationVariable" and local(c.tag) == "value"


def tails(el): return any(not blank(c.tail) for c in el)


def xml_object(el):
    """the members of an XML object or None if it is not one"""
    if not el.tag.startswith(NS) or not blank(el.text): return None
    if not known("C06-inline-text") and tails(el): return None
    data = el
    if is_content(el):
        if not one(el): return None
        data = kids(el)[0]
        if not known("C06-content"):
            if not data.tag.startswith(NS) or not blank(data.text): return None
    out = []
    for c in kids(data):
        if not c.tag.startswith(NS): return None
        if variable_value(data, c):
            if not one(c): return None
            c2 = kids(c)[0]
        else: c2 = c
        out.append((local(c.tag), c2))
    names = [n for n, _ in out]
    if len(set(names)) != len(names):
        if known("C06-repeated"): assume(False)
        return None
    return out


def well_named(el):
    """precondition: the XML parser yields no empty names; with the finding
    on model types, only elements of the namespace"""
    data = el
    if is_content(el) and one(el): data = kids(el)[0]
    if not el.tag.startswith(NS): return True
    if known("C06-model-type") and not data.tag.startswith(NS): return False
    return local(el.tag) != "" and local(data.tag) != ""


def h_xml_member(el, path, i, k):
    """for any child (the i-th) and any name k"""
    assume(well_named(el))
    data = el
    if is_content(el) and one(el): data = kids(el)[0]
    cs = kids(data)
    assume(all(all(local(cs[a].tag) != local(cs[b].tag) for b in range(a)) for a in range(len(cs))))
    kind, r = view(A.XmlAdapter(el, path).as_object)
    bad = (not el.tag.startswith(NS) or not blank(el.text) or (is_content(el) and not one(el))
           or any(not c.tag.startswith(NS) or (variable_value(data, c) and not one(c)) for c in cs))
    check("an object exactly when it has the namespace, no inline text and namespaced members", (kind == "ok") == (not bad))
    if kind == "ok":
        check("its members in order under their names", list(r.keys()) == [local(c.tag) for c in cs])
        check("members are exactly its child elements", (k in r) == any(local(c.tag) == k for c in cs))
        if 0 <= i and i < len(cs):
            c = cs[i]
            m = r[local(c.tag)]
            check("under its path", m.path.elements == path.elements + [local(c.tag)])
            check("each viewing its element", m.value is (kids(c)[0] if variable_value(data, c) else c))


def h_xml_object(el, path):
    assume(well_named(el))
    kind, r = view(A.XmlAdapter(el, path).as_object)
    want = xml_object(el)
    check("an object exactly when it has the namespace, no inline text and namespaced, distinct members", (kind == "ok") == (want is not None))
    if kind == "ok":
        check("its members in order under their names", list(r.keys()) == [n for n, _ in want])
        check("each viewing its element", all(r[n].value is c for n, c in want))
        check("under its path", all(r[n].path.elements == path.elements + [n] for n, c in want))


def h_xml_list(el, path, empty):
    if known("C06-inline-text"): text = False
    else: text = not blank(el.text) or tails(el)
    kind, r = view(A.XmlAdapter(el, path).as_list, empty)
    xs = kids(el)
    check("a list exactly when it may be empty or is not", (kind == "ok") == (not text and (empty or len(xs) > 0)))
    if kind == "ok":
        check("its child elements in order", len(r) == len(xs) and all(r[i].value is xs[i] for i in range(len(xs))))
        check("under their paths", all(r[i].path.elements == path.elements + [i] for i in range(len(xs))))


def h_xml_string(el, path):
    if known("C06-empty-child"): assume(len(kids(el)) == 0 or len(kids(kids(el)[0])) > 0)
    kind, r = view(A.XmlAdapter(el, path).as_string)
    check("a string exactly when it has no child elements", (kind == "ok") == (len(kids(el)) == 0))
    if kind == "ok": check("its text", r == ("" if el.text is None else el.text))


BOOLS = ("true", "false", "1", "0")


def collapsed(t):
    if t is None: return ""
    return t if t in BOOLS else t.strip()


def h_xml_bool(el, path):
    t = collapsed(el.text)
    if known("C06-empty-child"): assume(len(kids(el)) == 0 or len(kids(kids(el)[0])) > 0)
    if known("C06-boolean"): assume(el.text == "true" or el.text == "false" or len(kids(el)) > 0)
    kind, r = view(A.XmlAdapter(el, path).as_bool)
    check("a boolean exactly when its text is an XML boolean", (kind == "ok") == (len(kids(el)) == 0 and t in BOOLS))
    if kind == "ok": check("its truth value", r == (t in ("true", "1")))


def h_xml_model_type(el, path):
    kind, r = view(A.XmlAdapter(el, path).get_model_type) if not short(el) or not known("C06-model-type") else ("skip", None)
    assume(kind != "skip")
    data = el
    if is_content(el): data = kids(el)[0] if one(el) else None
    if known("C06-model-type") and data is not None: assume(data.tag.startswith(NS))
    ok = data is not None and data.tag.startswith(NS) and local(data.tag) != ""
    check("has a model type exactly when its tag is a name in the namespace", (kind == "ok") == ok)
    if kind == "ok": check("the capitalised tag", r == cap(local(data.tag)))


def short(el):
    data = el
    if is_content(el): data = kids(el)[0] if one(el) else None
    return data is not None and (not data.tag.startswith(NS) or local(data.tag) == "")


# -------------------------------------------------------------- symbolic side
def mk_value(e):
    """any JSON value"""
    k = z3.Int("v.kind")
    e.ax.append(z3.And(k >= 0, k <= 5))
    n = z3.Int("v.n")
    e.ax.append(n >= 0)
    key = lambda i: e.app("v.key", (zi(i),), e.S)
    idx = lambda s: e.app("v.idx", (s,), I)
    i = z3.Int("vi")
    e.ax.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), idx(key(i)) == i)))
    has = lambda s: z3.And(idx(e.st(s)) >= 0, idx(e.st(s)) < n, key(idx(e.st(s))) == e.st(s))
    m = SMap(n, key, has, lambda s: Opaque(e.app("v.get", (e.st(s),), U)))
    return SUnion([(k == 0, m), (k == 1, SList(n, lambda i: Opaque(e.app("v.item", (zi(i),), U)))), (k == 2, SStr(z3.Const("v.str", e.S))),
                   (k == 3, SBool(z3.Const("v.bool", B))), (k == 4, SInt(z3.Int("v.int"))), (k == 5, None)])


def mk_path(e):
    p = e.call(A.AdapterPath, [], {})
    n = z3.Int("els.n")
    e.ax.append(n >= 0)
    els = e.getattr(p, "elements")
    e.heap[els.id] = Lst([Span(n, lambda i: Opaque(e.app("el", (zi(i),), U)))])
    return p


EL = TAbs("Element", attrs={"tag": TStr(), "text": TOpt(TStr()), "tail": TOpt(TStr())})


def kid_list(e, o):
    n = e.app("kids.n", (o.t,), I)
    e.assume(n >= 0)
    return SList(n, lambda i: SObj(e.app("kid", (o.t, zi(i)), U), EL))


def kid_get(e, o, a, k): return e.getitem(kid_list(e, o), a[0])


EL.methods.update({"__iter__": lambda e, o, a, k: kid_list(e, o), "__len__": lambda e, o, a, k: SInt(kid_list(e, o).n),
                   "__bool__": lambda e, o, a, k: SBool(kid_list(e, o).n > 0), "__getitem__": kid_get})


def xml_setup(eng):
    eng.models[kids] = lambda e, a, k: kid_list(e, e.resolve(a[0]))


def xml_object_setup(eng):
    xml_setup(eng)
    eng.feas_timeout = 100


# ---------------------------------------------------------------- concrete side
def gen_json(g, depth=0):
    r = g.r
    x = r.random()
    if x < 0.3 and depth < 3: return {r.choice(["a", "b", "modelType", "ModelType", "value", ""]): gen_json(g, depth + 1) for _ in range(r.randint(0, 4))}
    if x < 0.55 and depth < 3: return [gen_json(g, depth + 1) for _ in range(r.randint(0, 3))]
    return r.choice([None, True, False, 0, 1, 1.5, "", "x", "true", "false", "1"])


def gen_el(g, depth=0):
    r = g.r
    ns = r.choice([NS] * 8 + ["{https://admin-shell.io/aas/3/1}", "", "{http://x}"])
    el = ET.Element(ns + r.choice(["value", "property", "operationVariable", "OperationVariable", "dataSpecificationContent", "a", "b", "submodel", "xdataSpecificationContent"] + [""] * (r.random() < 0.2)))
    if r.random() < 0.5: el.text = r.choice(["", " ", "\n  ", "x", "true", "false", "1", "0", " true ", "TRUE", "yes"])
    if r.random() < 0.2: el.tail = r.choice([" ", "\n", "x"])
    for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if depth < 3 else 0): el.append(gen_el(g, depth + 1))
    return el


def gen_path(g):
    p = A.AdapterPath()
    for _ in range(g.r.randint(0, 3)): p = p + g.r.choice(["a", 1, "b"])
    return p


GJ = lambda g: [gen_json(g), gen_path(g)]
GX = lambda g: [gen_el(g), gen_path(g)]
MODULES = ["aas_test_engines.test_cases.v3_0.adapter"]
O = Obligation
J = [("v", mk_value), ("path", mk_path)]
X = [("el", EL), ("path", mk_path)]
EMPTY = ("empty", TBool())
OBLIGATIONS = [
    O("JSON object", h_json_member, J + [("k", TStr())], concrete=h_json_object, gen=GJ),
    O("JSON list", h_json_list, J + [EMPTY], gen=lambda g: GJ(g) + [g.r.random() < 0.5]),
    O("JSON string and boolean", h_json_leaf, J, gen=GJ),
    O("JSON model type", h_json_model_type, J, gen=GJ),
    O("XML list", h_xml_list, X + [EMPTY], gen=lambda g: GX(g) + [g.r.random() < 0.5], setup=xml_setup),
    O("XML string", h_xml_string, X, gen=GX, setup=xml_setup),
    O("XML boolean", h_xml_bool, X, gen=GX, setup=xml_setup, strings="seq"),
    O("XML model type", h_xml_model_type, X, gen=GX, setup=xml_setup, strings="seq"),
    O("XML object", h_xml_member, X + [("i", TInt()), ("k", TStr())], setup=xml_object_setup, strings="seq", concrete=h_xml_object, gen=GX, samples=30000),
]


# -------------------------------------------------------------------- findings
def ad(text): return A.XmlAdapter(ET.fromstring(text.replace("NS", NS[1:-1])), A.AdapterPath())


def crashes(f):
    try: f()
    except A.AdapterException: return False
    except Exception: return True
    return False


FINDINGS = {
    "C06-empty-child": lambda: view(ad('<a xmlns="NS">x<b/></a>').as_string)[0] == "ok",
    "C06-boolean": lambda: view(ad('<a xmlns="NS">1</a>').as_bool) == ("ok", False),
    "C06-repeated": lambda: view(ad('<a xmlns="NS"><b>1</b><b>2</b></a>').as_object)[0] == "ok",
    "C06-model-type": lambda: crashes(ad("<a/>").get_model_type),
    "C06-inline-text": lambda: view(ad('<a xmlns="NS"><b/>text</a>').as_object)[0] == "ok" and view(ad('<a xmlns="NS">text</a>').as_list, True)[0] == "ok",
    "C06-content": lambda: view(ad('<dataSpecificationContent xmlns="NS"><x:a xmlns:x="http://x">text</x:a></dataSpecificationContent>').as_object)[0] == "ok",
}
