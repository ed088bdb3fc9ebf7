"""C25: iteration over submodel elements and idShort paths."""
import dataclasses
import z3
from pyvc.spec import check, assume
from pyvc.values import *
from pyvc.tds import *
from pyvc.driver import Obligation
from pyvc.engine import Undecided, zi
from aas_test_engines.test_cases.v3_0 import model as M, parse as P
from aas_test_engines.test_cases.v3_0.adapter import JsonAdapter, AdapterPath
from aas_test_engines import reflect as R
from aas_test_engines.reflect import reflect
from aas_test_engines.result import AasTestResult, Level

LEAVES = ["Property", "Range", "Blob", "File", "MultiLanguageProperty", "ReferenceElement", "RelationshipElement", "AnnotatedRelationshipElement", "BasicEventElement", "Capability", "Entity", "Operation"]
NONE = {n: {f.name: None for f in dataclasses.fields(getattr(M, n))} for n in LEAVES + ["SubmodelElementCollection", "SubmodelElementList", "Submodel"]}
KINDS = {n: getattr(M, n) for n in NONE}


def make(kind, **kw): return KINDS[kind](**{**NONE[kind], **kw})


# ---------------------------------------------- one level, nested calls by contract
def log(): ...  # the (element, path) pairs of the nested _set_path calls, in order
def start_log(): ...


def nested(kids): return [x for c in (kids if kids is not None else []) for x in c.elements()]


def h_elements(kind, kids):
    o = make(kind, value=kids)
    check("itself first, then everything of its children in order", list(o.elements()) == [o] + nested(kids))


def h_submodel_elements(kids):
    o = make("Submodel", submodel_elements=kids)
    check("everything of its elements in order", list(o.elements()) == nested(kids))


def h_leaf(kind, path):
    o = make(kind)
    check("only itself", list(o.elements()) == [o])
    o._set_path(path)
    check("carries its path", o.id_short_path is path)


def tokens(p): return p.id_shorts
def owner(p): return p.root


def h_path(kind, kids, root, ids, i):
    """for any child (the i-th)"""
    path = mk_path(root, ids)
    o = make(kind, value=kids)
    start_log()
    o._set_path(path)
    check("carries its path", o.id_short_path is path and path.id_shorts == ids and path.root is root)
    calls = log()
    n = len(kids) if kids is not None else 0
    check("every child gets one path", len(calls) == n)
    if kids is not None and 0 <= i and i < n:
        c, p = calls[i]
        check("in order", c is kids[i])
        check("its own path, continued by the idShort or list position", p.root is root and p.id_shorts == ids + [i if kind == "SubmodelElementList" else kids[i].id_short])


def h_submodel_path(kids, i, post):
    o = make("Submodel", submodel_elements=kids)
    start_log()
    if post: o.post_parse()
    else: o.update_id_shorts()
    calls = log()
    n = len(kids) if kids is not None else 0
    check("every element gets one path", len(calls) == n)
    if kids is not None and 0 <= i and i < n:
        c, p = calls[i]
        check("in order", c is kids[i])
        check("from the submodel, its idShort", p.root is o and p.id_shorts == [kids[i].id_short])


def mk_path(root, ids):
    p = M.IdShortPath(root)
    for x in ids: p = p + x
    return p


def h_add(root, ids, t):
    p = M.IdShortPath(root)
    p.id_shorts = ids
    q = p + t
    check("a new path, the old one unchanged", q is not p and p.id_shorts == ids and p.root is root)
    check("continued by the token", q.root is root and q.id_shorts == ids + [t])


# ------------------------------------------------------------------ symbolic side
TOKEN = TAbs("token")
CHILD = TAbs("element", attrs={"id_short": TOKEN})  # any idShort or None: paths only pass it on
ROOT = TAbs("submodel")


def child_elements(e, o, a, k):
    n = e.app("elements.n", (o.t,), I)
    e.assume(n >= 1)
    return SList(n, lambda i: SObj(e.app("elements.at", (o.t, zi(i)), U), CHILD))


CHILD.methods["elements"] = child_elements


def setup(eng):
    def start_(e, a, k):
        e.log_ = e.new_list([])
    def set_path(e, o, a, k):
        e.call(e.getattr(e.log_, "append"), [(o, a[0])], {})
    CHILD.methods["_set_path"] = set_path
    eng.models[start_log] = start_
    eng.models[log] = lambda e, a, k: e.log_
    def path_(e, a, k):
        p = e.call(M.IdShortPath, [a[0]], {})
        e.setattr(p, "id_shorts", a[1])
        return p
    eng.models[mk_path] = path_


KIDS = TOpt(TList(CHILD))
IDS = TList(TOKEN)
COLL = TConst("SubmodelElementCollection", "SubmodelElementList")
MODULES = ["aas_test_engines.test_cases.v3_0.model"]
O = Obligation
USES = {"c02": None}  # contracts of callees this property rests on

OBLIGATIONS = [
    O("iteration of collections and lists", h_elements, [("kind", COLL), ("kids", KIDS)], setup=setup),
    O("iteration of submodels", h_submodel_elements, [("kids", KIDS)], setup=setup),
    O("other elements", h_leaf, [("kind", TConst(*LEAVES)), ("path", TAbs("path", gen=lambda g: M.IdShortPath(None)))], setup=setup),
    O("paths in collections and lists", h_path, [("kind", COLL), ("kids", KIDS), ("root", ROOT), ("ids", IDS), ("i", TInt())], setup=setup),
    O("paths in submodels", h_submodel_path, [("kids", KIDS), ("i", TInt()), ("post", TBool())], setup=setup),
    O("path extension", h_add, [("root", ROOT), ("ids", IDS), ("t", TOKEN)], setup=setup),
]


# --------------------------------------------------------- concrete: whole submodels
def build(spec):
    kind, name, kids = spec
    ids = M.NameTypeString(name) if name is not None else None
    if kind in ("SubmodelElementCollection", "SubmodelElementList"):
        return make(kind, id_short=ids, value=[build(k) for k in kids] if kids is not None else None)
    return make(kind, id_short=ids)


def walk(spec, obj, path, out):
    out.append((obj, path))
    if spec[2] is not None:
        for i, (s, o) in enumerate(zip(spec[2], obj.value)):
            walk(s, o, path + [str(i) if spec[0] == "SubmodelElementList" else s[1] if s[1] is not None else "?"], out)


def h_tree(specs, name, post):
    kids = [build(s) for s in specs] if specs is not None else None
    sm = make("Submodel", submodel_elements=kids, id=M.IdentifierString("urn:id"), id_short=M.NameTypeString(name) if name is not None else None)
    if post: sm.post_parse()
    else: sm.update_id_shorts()
    want = []
    for s, o in zip(specs or [], kids or []): walk(s, o, [s[1] if s[1] is not None else "?"], want)
    got = list(sm.elements())
    check("every element exactly once, parents first, in document order", len(got) == len(want) and all(a is b for a, (b, _) in zip(got, want)))
    for o, path in want:
        check("carries the path from the submodel", o.id_short_path is not None and o.id_short_path.root is sm and str(o.id_short_path) == ".".join(path) + f" in Submodel {name or ''}[urn:id]")


def gen_spec(g, depth=0):
    r = g.r
    kind = r.choice(["SubmodelElementCollection", "SubmodelElementList"]) if r.random() < (0.6 if depth < 4 else 0) else r.choice(LEAVES)
    name = r.choice(["a", "b", "c", "Id_1", "x" * 20, None])
    return (kind, name, [gen_spec(g, depth + 1) for _ in range(r.randint(0, 3))] if kind.startswith("SubmodelElement") and r.random() < 0.9 else None)


def gen_tree(g):
    r = g.r
    return [[gen_spec(g) for _ in range(r.randint(0, 4))] if r.random() < 0.95 else None, r.choice(["sm", None]), r.random() < 0.5]


for o in OBLIGATIONS:
    if o.name != "other elements": o.concrete, o.gen, o.samples = h_tree, gen_tree, 200


class Root:
    """a submodel as far as paths look at it"""
    def __init__(self, name): self.id_short, self.id = (M.NameTypeString(name) if name is not None else None), M.IdentifierString("urn:id")


def doc(spec, in_list=False):
    kind, name, kids = spec
    d = {"modelType": kind}
    if not in_list and name: d["idShort"] = name
    if kind == "SubmodelElementList": d["typeValueListElement"] = "SubmodelElement"
    if kind in ("SubmodelElementList", "SubmodelElementCollection") and kids: d["value"] = [doc(k, kind == "SubmodelElementList") for k in kids]
    return d


def h_parsed(specs, name):
    """paths of a parsed document; a violated constraint names its path"""
    t, _ = reflect(M.Submodel, M.__dict__, M.__dict__)
    d = {"modelType": "Submodel", "id": "urn:id", "submodelElements": [doc(s) for s in specs]}
    if name is not None: d["idShort"] = name
    res, env = P.parse_and_check_json(t, d)
    want = []
    def visit(s, o, path):
        want.append((o, path))
        kids = s[2] or []
        for i, k in enumerate(kids): visit(k, o.value[i], path + [str(i) if s[0] == "SubmodelElementList" else k[1] or "?"])
    for s, o in zip(specs, env.submodel_elements): visit(s, o, [s[1] or "?"])
    got = list(env.elements())
    check("every element exactly once, parents first, in document order", len(got) == len(want) and all(a is b for a, (b, _) in zip(got, want)))
    check("each carries its path after parsing", all(o.id_short_path is not None and str(o.id_short_path) == ".".join(p) + f" in Submodel {name or ''}[urn:id]" for o, p in want))
    msgs = [m.message for c in res.sub_results for m in c.sub_results]
    for s, (o, p) in zip(flat(specs), want):
        if s[0] == "SubmodelElementCollection" and s[2] and any(k[1] is None for k in s[2]):
            check("the violation of an unnamed element names the path of its collection", any("AASd-117" in m and f"@ {'.'.join(p)} in Submodel" in m for m in msgs))


def flat(specs):
    out = []
    for s in specs: out += [s] + flat(s[2] or [])
    return out


def gen_doc(g):
    r = g.r
    def spec(depth):
        kind = r.choice(["SubmodelElementCollection", "SubmodelElementList"]) if r.random() < (0.7 if depth < 3 else 0) else "Capability"
        kids = [spec(depth + 1) for _ in range(r.randint(1, 3))] if kind != "Capability" and r.random() < 0.9 else None
        name = r.choice(["a", "b", "c", "Id_1"]) if r.random() < 0.85 else None
        return (kind, name, kids)
    return [[spec(0) for _ in range(r.randint(1, 3))], r.choice(["sm", None])]


OBLIGATIONS += [O("whole submodels", h_tree, gen=gen_tree, mode="cross", samples=3000, functions=["aas_test_engines.test_cases.v3_0.model:IdShortPath.__str__"]),
                O("parsed documents", h_parsed, gen=gen_doc, mode="cross", samples=1500, functions=["aas_test_engines.test_cases.v3_0.parse:parse_and_check_json", "aas_test_engines.test_cases.v3_0.model:IdShortPath.__str__"])]


# ------------------------------------------- parsing sets the paths, messages show them
def h_hook(t, v, before, after):
    """parse against the contract of parse_concrete_object, which leaves the severity `after`"""
    begin()
    res = AasTestResult("r", before)
    r = P.parse(t, v, res)
    check("the parsed object", r is built())
    check("its paths are set exactly when it was parsed without error", hooks() == (1 if after.value < Level.ERROR.value and before.value < Level.ERROR.value else 0))


def begin(): ...
def built(): ...
def hooks(): return 0


def hook_setup(eng):
    done = [0]
    obj = SObj(z3.Const("object", U), TAbs("parsed", methods={"post_parse": lambda e, o, a, k: done.__setitem__(0, done[0] + 1)}))
    def clear(e, a, k): done[0] = 0
    def concrete(e, a, k):
        if done[0]: raise Undecided("parsed twice")
        e.call_method(a[2], "append", [e.call(AasTestResult, ["finding", e.after_], {})], {})
        return obj
    eng.models[P.parse_concrete_object] = concrete
    eng.models[begin] = clear
    eng.models[built] = lambda e, a, k: obj
    eng.models[hooks] = lambda e, a, k: done[0]


def mk_after(e):
    e.after_ = e.mk(TEnum(Level), "after")
    return e.after_


CONCRETE = TAbs("ClassType", methods={"is_abstract": lambda e, o, a, k: False}, cls=R.ClassType)


def h_text(root, ids):
    p = M.IdShortPath(root)
    p.id_shorts = ids
    check("the tokens joined by dots, in the submodel", str(p) == ".".join(["?" if t is None else str(t) if isinstance(t, int) else t.raw_value for t in ids])
          + f" in Submodel {root.id_short.raw_value if root.id_short else ''}[{root.id}]")


NAMED = TAbs("name", attrs={"raw_value": TStr()}, methods={"__bool__": lambda e, o, a, k: True}, cls=M.NameTypeString)
ANYTOKEN = lambda e, *a: None


def mk_tokens(e):
    n = z3.Int("tokens.n")
    e.ax.append(n >= 0)
    def at(i):
        k = e.app("token.kind", (zi(i),), I)
        return SUnion([(k == 0, None), (k == 1, SInt(e.app("token.index", (zi(i),), I))), (z3.And(k != 0, k != 1), SObj(e.app("token.name", (zi(i),), U), NAMED))])
    return SList(n, at)


SUBMODEL = TAbs("submodel", attrs={"id_short": TOpt(NAMED), "id": TStr()})
OBLIGATIONS += [
    O("paths are set by parsing", h_hook, [("t", CONCRETE), ("v", TAbs("adapter")), ("before", TEnum(Level)), ("after", mk_after)], setup=hook_setup, concrete=h_parsed, gen=gen_doc, samples=100),
    O("text of a path", h_text, [("root", SUBMODEL), ("ids", mk_tokens)], concrete=h_text,
      gen=lambda g: [Root(g.r.choice(["sm", "a", None])), [g.r.choice([None, 0, 1, 12, M.NameTypeString("a"), M.NameTypeString("Id_1")]) for _ in range(g.r.randint(0, 5))]]),
]
ASSUMPTIONS = ["the nested calls of elements() and _set_path() satisfy the same contract (induction over the nesting depth)"]
