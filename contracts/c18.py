"""C18: file verdicts."""
import functools, io, json, zipfile, zlib
import z3
from xml.etree import ElementTree
from pyvc.spec import check
from pyvc.values import *
from pyvc.tds import *
from pyvc.engine import Undecided, zi
from pyvc.driver import Obligation
from contracts.support import known
from contracts.c04 import Patch
from contracts.c17 import package, GOOD, name_of
from aas_test_engines import file as F
from aas_test_engines import opc
from aas_test_engines.opc import Relationship
from aas_test_engines.result import AasTestResult, Level
from aas_test_engines.test_cases import v3_0

# ------------------------------------------------------------------ documents
NS = 'xmlns="https://admin-shell.io/aas/3/0"'
DOCS = {
    "json": [("{}", 0), ('{"submodels": [{"modelType": "Submodel", "id": "x"}]}', 0), ('{"x": 1}', 2), ('{"submodels": []}', 2), ("[]", 2), ("1", 2), ("null", 2), ("{", 2), ("", 2),
             (b'{"a": "\xff"}', 2), ('{"submodels": [{"modelType": "Submodel", "id": "x", "idShort": "1"}]}', 2), (b"\xff\xfe{\x00", 2), ("{}x", 2), ("9" * 5000, 2), ("  {}\n", 0), (b"\xef\xbb\xbf{}", 0), ("{,}", 2), ("{'submodels': 1}", 2), ("{}{}", 2), ("{} // x", 2), (b"\x00{}", 2), (b"{}\x00", 2), (" ", 2), ('{"submodels": [],}', 2),
             ('{"submodels": [{"modelType": "Submodel", "id": "a\tb"}]}', 2), ('{"submodels": [{"modelType": "Submodel", "id": "a\nb"}]}', 2), ('{"submodels": [{"modelType": "Submodel", "id": "a\\tb"}]}', 0), ("nan", 2), ("NaN", 2), ("[{}]", 2), ('"{}"', 2),
             ('{"submodels": [{"modelType": "Submodel", "id": "x", "semanticId": {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": "https://admin-shell.io/zvei/nameplate/2/0/Nameplate"}]}, "submodelElements": [{"modelType": "Capability", "idShort": "c"}]}]}', 2),
             ('{"conceptDescriptions": [{"modelType": "ConceptDescription", "id": "c", "embeddedDataSpecifications": [{"dataSpecification": {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": "urn:x"}]}, "dataSpecificationContent": {"modelType": "DataSpecificationIec61360", "preferredName": [{"language": "en", "text": "x"}], "definition": [{"language": "en", "text": "x"}]}}]}]}', 1)],
    "xml": [(f"<environment {NS}/>", 0), (f"<environment {NS}><submodels><submodel><id>x</id></submodel></submodels></environment>", 0), (f"<environment {NS}><x/></environment>", 2),
            ("<environment/>", 2), ("<environment", 2), ("", 2), (b"<a>\xff</a>", 2), (b'<?xml version="1.0" encoding="foo"?><a/>', 2), (b'<?xml version="1.0" encoding="shift_jis"?><a/>', 2),
            (f"<environment {NS}><submodels/></environment>", 2), (f"<environment {NS}/>x", 2), (f"<environment {NS}/>\n ", 0), (f"<!-- c --><environment {NS}/>", 0), (f'<?xml version="1.0" encoding="UTF-8"?><environment {NS}/>', 0), (f' <?xml version="1.0"?><environment {NS}/>', 2),
            (f"<environment {NS}/><environment {NS}/>", 2), (f'<environment xmlns="https://admin-shell.io/aas/3/1"/>', 2), (f"<environment {NS}>&x;</environment>", 2), (f"<environment {NS}/>\0", 2), (f'<environment {NS} {NS}/>', 2),
            (f"<environment {NS}><submodels><submodel><id>x</id></submodel></submodels></environment>".encode("utf-16"), 0), (f"<environment {NS}></Environment>", 2),
            (f"<environment {NS}><submodels><submodel><idShort>1</idShort><id>x</id></submodel></submodels></environment>", 2)],
}
# documents of other model types: (format, type, text, level)
TYPED = [
    ("json", "Reference", '{"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": "x"}]}', 0),
    ("json", "Reference", "{}", 2),
    ("json", "Submodel", '{"modelType": "Submodel", "id": "x"}', 0),
    ("json", "Submodel", '{"modelType": "Submodel"}', 2),
    ("json", "Environment", '{"modelType": "Submodel", "id": "x"}', 2),
    ("json", "ConceptDescription", '{"modelType": "ConceptDescription", "id": "x", "idShort": "1"}', 2),
    ("xml", "Submodel", f"<submodel {NS}><id>x</id></submodel>", 0),
    ("xml", "Submodel", f"<submodel {NS}/>", 2),
    ("xml", "Submodel", f"<submodel {NS}><submodels/></submodel>", 2),
    ("xml", "Environment", f"<submodel {NS}><id>x</id></submodel>", 2),
]
LV = [Level.INFO, Level.WARNING, Level.ERROR, Level.CRITICAL]
KF_TYPE = known("C18-other-model-types")


def raw(t): return t.encode() if isinstance(t, str) else t


def h_doc(fmt, model_type, text, level):
    f = io.BytesIO(raw(text))
    try:
        r = F.check_json_file(f, model_type=model_type) if fmt == "json" else F.check_xml_file(f, model_type=model_type)
    except AttributeError as e:
        check("a compliant document of any model type is checked without a crash", KF_TYPE and model_type != "Environment" and level < 2)
        return
    check("verdict of a document", r.level == LV[level])
    if fmt == "json" and level != 2:
        check("verdict of the data", F.check_json_data(json.loads(raw(text)), model_type=model_type).level == LV[level])
    if fmt == "xml" and level != 2:
        check("verdict of the data", F.check_xml_data(ElementTree.fromstring(raw(text)), model_type=model_type).level == LV[level])


def f_types():
    try: F.check_json_file(io.BytesIO(TYPED[0][2].encode()), model_type="Reference")
    except AttributeError: return True
    return False


FINDINGS = {"C18-other-model-types": f_types}


def docs():
    for fmt in DOCS:
        for t, l in DOCS[fmt]: yield [fmt, "Environment", t, l]
    for x in TYPED: yield list(x)


# ------------------------------------------------------------------- packages
def h_package(origins, extra, damage):
    """origins: list of (deprecated?, [(file name, deprecated?, text, level)])"""
    parts, rels, items, worst, levels, parts_of = {}, {}, [], 0, {}, []
    if len(origins) != 1: worst = 1
    # "<k": a relationship of another type to origin k, listed before those of the origins (">k": after)
    early = {int(n[1:]) for n in extra if n[0] == "<"}
    for i in early: items.append(("rel", "http://other", f"/aasx/origin{i}"))
    for i, (dep, specs) in enumerate(origins):
        o = f"aasx/origin{i}"
        parts[o] = "x"
        items.append(("rel", F.TYPE_AASX_ORIGIN.replace("//admin", "//www.admin") if dep else F.TYPE_AASX_ORIGIN, "/" + o))
        if dep: worst = max(worst, 1)
        if not specs: worst = max(worst, 1)
        sub = []
        for j, (name, sdep, text, level) in enumerate(specs):
            n = "aasx/" + name[1:] if name.startswith("=") else f"aasx/d{i}_{j}/{name}"
            if n in parts: level = levels[n]  # another relationship to the same document
            else: parts[n], levels[n] = raw(text), level
            if i in early and missed(): level = 1
            else: parts_of.append((n, parts[n]))
            sub.append(("rel", F.TYPE_AASX_SPEC.replace("//admin", "//www.admin") if sdep else F.TYPE_AASX_SPEC, "/" + n))
            worst = max(worst, level, 1 if sdep else 0)
        rels[o] = ("ok", sub)
    for n in extra:
        if n[0] == "<": continue
        if n[0] == ">": n = f"aasx/origin{n[1:]}"
        else: parts[n] = "x"
        items.append(("rel", "http://other", "/" + n))
    rels[""] = ("ok", items)
    b = io.BytesIO()
    z = package((GOOD, parts, rels))
    z.fp.seek(0)
    data = z.fp.read()
    if damage == "cut": data, worst = data[: len(data) // 2], 2
    elif damage == "text": data, worst = b"hello", 2
    elif damage == "empty": data, worst = b"", 2
    elif damage == "crc":
        # flip a byte of the stored origin part
        k = data.index(b"<Types") + 3
        data, worst = data[:k] + b"?" + data[k + 1:], 2
    seen = []
    def counted(f, kind):
        def g(*a, **k):
            seen.append(kind)
            return f(*a, **k)
        return g
    with Patch((v3_0.json_to_obj, counted(v3_0.json_to_obj, "json")), (v3_0.xml_to_obj, counted(v3_0.xml_to_obj, "xml"))):
        r = F.check_aasx_file(io.BytesIO(data))
    if damage == "no":
        texts = [(kind_of_name(n), t) for n, t in parts_of]
        check("every readable specification document is checked in its format", sorted(seen) == sorted(k for k, t in texts if readable(k, t)))
    check("verdict of a package", r.level == LV[worst])
    check("compliant exactly without errors", r.ok() == (worst < 2))


def f_early():
    """an origin first reached by another relationship: its documents are not looked at"""
    parts = {"aasx/o": "x", "aasx/a.json": "[1]"}
    rels = {"": ("ok", [("rel", "http://other", "/aasx/o"), ("rel", F.TYPE_AASX_ORIGIN, "/aasx/o")]), "aasx/o": ("ok", [("rel", F.TYPE_AASX_SPEC, "/aasx/a.json")])}
    z = package((GOOD, parts, rels))
    z.fp.seek(0)
    return F.check_aasx_file(io.BytesIO(z.fp.read())).ok()


FINDINGS["C18-origin-reached-before"] = f_early


@functools.lru_cache
def missed(): return known("C18-origin-reached-before") and f_early()


def kind_of_name(n): return "json" if n.endswith(".json") else "xml" if n.endswith(".xml") else None


def readable(kind, text):
    try: return kind is not None and (json.loads(text) if kind == "json" else ElementTree.fromstring(text), True)[1]
    except (ValueError, LookupError, ElementTree.ParseError): return False


def gen_package(g):
    r = g.r
    clean = r.random() < 0.6
    def spec():
        fmt = r.choice(["json", "xml"])
        t, l = r.choice([d for d in DOCS[fmt] if not clean or d[1] < 2] if r.random() < 0.9 else DOCS[fmt])
        if r.random() < 0.1: return (r.choice(["a.txt", "b.JSON", "c", "xml", "d.xml.bak"]), False, t, 1)
        w = g.pick([""], 0.06)
        w = w + "." if w.isalnum() else ""
        return (r.choice(["env.", "a.b.", ".", "=a.", "=a.", "=json.", "=xml."]) + w + fmt, r.random() < 0.15, t, l)
    n = r.choice([1, 1, 1, 1, 0, 2, 3])
    again = [r.choice("<>>") + str(r.randrange(n))] if n and r.random() < 0.2 else []
    return [[(r.random() < 0.15, [spec() for _ in range(g.size([1, 1, 2, 3, 0], 320))]) for _ in range(n)], again + r.sample(["x/thumb.png", "y.bin"], r.randint(0, 2)),
            r.choice(["no"] * 12 + ["cut", "text", "empty", "crc"])]


# ----------------------------------------------------------- deductive contracts
def arm(kind, level): pass
def seen(): return None


def h_json_file(kind, level, version, model_type, f):
    """check_json_file against the contracts of json.load and json_to_obj"""
    arm(kind, level)
    r = F.check_json_file(f, version, model_type)
    if kind == 0 or kind == 1:
        check("malformed text is an error", r.level == Level.ERROR)
    else:
        check("the document is checked once against the requested type", seen() == [model_type])
        check("and its verdict is the result", r.level == level)


def h_xml_file(kind, level, version, model_type, f):
    arm(kind, level)
    r = F.check_xml_file(f, version, model_type)
    if kind == 0 or kind == 1:
        check("malformed text is an error", r.level == Level.ERROR)
    else:
        check("the document is checked once against the requested type", seen() == [model_type])
        check("and its verdict is the result", r.level == level)


def file_setup(eng):
    st = {"kind": None, "level": None, "log": []}
    def do_arm(e, a, k):
        st["kind"], st["level"], st["log"] = a[0], a[1], []
        return None
    eng.models[arm] = do_arm
    eng.models[seen] = lambda e, a, k: e.new_list(list(st["log"]))
    def load(e, a, k):
        if e.branch(e.eq(st["kind"], 0)): e.raise_(json.JSONDecodeError, "m", "d", 0)
        if e.branch(e.eq(st["kind"], 1)): e.raise_(UnicodeDecodeError, "utf-8", b"", 0, 1, "x")
        return Opaque(e.fresh("data", U))
    def parse_xml(e, a, k):
        if e.branch(e.eq(st["kind"], 0)): e.raise_(ElementTree.ParseError, "m")
        if e.branch(e.eq(st["kind"], 1)): e.raise_(LookupError, "unknown encoding")
        return Opaque(e.fresh("data", U))
    def to_obj(e, a, k):
        mt = a[1] if len(a) > 1 else k["model_type"]
        st["log"].append(mt)
        return (e.call(AasTestResult, ["Check", st["level"]], {}), Opaque(e.fresh("env", U)))
    eng.models[json.load] = load
    eng.models[json.loads] = load
    eng.models[ElementTree.fromstring] = parse_xml
    eng.models[v3_0.json_to_obj] = to_obj
    eng.models[v3_0.xml_to_obj] = to_obj


def gen_doc(g):
    d = g.r.choice(ALL)
    return list(d)


def lv(l): return l.value


def doc_level(target): ...      # severity of the document of that name (contract of check_*_file)
def kind_of(target): return 1 if target.endswith(".xml") else 2 if target.endswith(".json") else 0
def specs_of(o): return o.sub_rels_by_type(F.TYPE_AASX_SPEC)


def spec_at_least(s, n):
    """the document of a specification relationship is at least this bad"""
    return (n <= 1) if kind_of(s.target) == 0 else lv(doc_level(s.target)) >= n


def files_at(root, z, n):
    r = F._check_files(z, root, "3.0")
    origins = root.sub_rels_by_type(F.TYPE_AASX_ORIGIN)
    bad = any(any(spec_at_least(s, n) for s in specs_of(o)) for o in origins)
    if n == 1: bad = bad or len(origins) != 1 or any(not specs_of(o) for o in origins)
    check(f"at least {LV[n].name} when some part is", lv(r.level) >= n or not bad)
    check(f"at least {LV[n].name} only when some part is", bad or not lv(r.level) >= n)


def h_files_w(root, z): files_at(root, z, 1)
def h_files_e(root, z): files_at(root, z, 2)
def h_files_c(root, z): files_at(root, z, 3)


REL2 = TAbs("Relationship", attrs={"type": TStr(), "target": TStr()}, cls=Relationship)
def by_type(td):
    """by the contract of sub_rels_by_type (C17): a list that depends on the relationship and the type"""
    def m(e, o, a, k):
        t = e.st(e.resolve(a[0] if a else k["type"]))
        n = e.app("by type#n", (o.t, t), I)
        e.assume(n >= 0)
        def at(i):
            x = SObj(e.app("by type", (o.t, t, zi(i)), U), td)
            return x
        return SList(n, at)
    return m
REL1 = TAbs("Relationship", attrs={"type": TStr(), "target": TStr()}, methods={"sub_rels_by_type": by_type(REL2)}, cls=Relationship)
REL0 = TAbs("Relationship", attrs={"type": TStr(), "target": TStr()}, methods={"sub_rels_by_type": by_type(REL1)}, cls=Relationship)
PART = TAbs("open part", methods={"__enter__": lambda e, o, a, k: o, "__exit__": lambda e, o, a, k: False})
ARCH = TAbs("archive", methods={"open": lambda e, o, a, k: SObj(e.app("part of", (e.st(e.resolve(a[0])),), U), PART)})


def files_setup(eng):
    def dl(e, t):
        return SEnum(Level, e.app("doc_level", (e.st(t),), I))
    x = z3.Const("x", eng.S)
    d = eng.app("doc_level", (x,), I)
    eng.ax.append(z3.ForAll([x], z3.And(d >= 0, d <= 3), patterns=[d]))
    def worst(e, a, k):
        # by its contract (C01)
        x, y = (e.resolve(v) for v in a)
        if isinstance(x, Level) and isinstance(y, Level): return x | y
        if x is Level.INFO: return y
        if y is Level.INFO: return x
        x, y = (z3.IntVal(LV.index(v)) if isinstance(v, Level) else v.t for v in (x, y))
        return SEnum(Level, z3.If(x >= y, x, y))
    eng.models[Level.__or__] = worst
    eng.models[doc_level] = lambda e, a, k: dl(e, e.resolve(a[0]))
    def doc(kind):
        def m(e, a, k):
            f = e.resolve(a[0])
            if not (isinstance(f, SObj) and f.t.decl().name() == "part of"): raise Undecided("another file")
            t = SStr(f.t.arg(0))
            if not e.branch(e.eq(e.call(kind_of, [t], {}), kind)):
                # a document of the other format: anything may be found
                l = e.fresh("level", I)
                e.assume(z3.And(l >= 0, l <= 3))
                return e.call(AasTestResult, ["other"], {"level": SEnum(Level, l)})
            return e.call(AasTestResult, ["doc"], {"level": dl(e, t)})
        return m
    eng.models[F.check_xml_file] = doc(1)
    eng.models[F.check_json_file] = doc(2)


OLD = "http://www.admin-shell.io/aasx/relationships/"
CURRENT = {OLD + n: "http://admin-shell.io/aasx/relationships/" + n for n in ("aasx-origin", "aas-spec", "aas-suppl")}


def calls(): ...


def h_aasx_data(z, opc_level, files_level, version):
    """check_aasx_data against the contracts of read_opc and _check_files"""
    arm(opc_level, files_level)
    r = F.check_aasx_data(z, version)
    if lv(opc_level) >= 2:
        check("a malformed package is not compliant, its documents are not looked at", r.level == opc_level and calls() == [("opc", True, True)])
    else:
        check("its documents are checked, once, in the scanned package", calls() == [("opc", True, True), ("files", True, True)])
        check("verdict of the worst part", lv(r.level) == max(lv(opc_level), lv(files_level)))


def h_deprecated(): check("the relationship types of the specification and their former names", F.DEPRECATED_TYPES == CURRENT and [F.TYPE_AASX_ORIGIN, F.TYPE_AASX_SPEC, F.TYPE_AASX_SUPPL] == list(CURRENT.values()))


def aasx_setup(eng):
    st = {"log": [], "rel": None}
    def do_arm(e, a, k):
        st["opc"], st["files"], st["log"], st["rel"] = a[0], a[1], [], None
    eng.models[arm] = do_arm
    eng.models[calls] = lambda e, a, k: e.new_list(list(st["log"]))
    def args(a, k, names): return [a[i] if i < len(a) else k[n] for i, n in enumerate(names)]
    def read(e, a, k):
        z, rel, res, dep = args(a, k, ["zipfile", "root_rel", "root_result", "deprecated_types"])
        st["rel"] = rel
        d = e.resolve(dep)
        same = d is F.DEPRECATED_TYPES or isinstance(d, Ref) and e.eq(d, F.DEPRECATED_TYPES) is True
        st["log"].append(("opc", e.resolve(z) is e.z_, bool(same)))
        e.call(e.getattr(res, "append"), [e.call(AasTestResult, ["opc", st["opc"]], {})], {})
    def files(e, a, k):
        z, rel = args(a, k, ["zipfile", "root_rel"])
        st["log"].append(("files", e.resolve(z) is e.z_, rel is st["rel"] and rel is not None))
        return e.call(AasTestResult, ["files", st["files"]], {})
    eng.models[opc.read_opc] = read
    eng.models[F._check_files] = files


def h_aasx_file(kind, level, version, f):
    """check_aasx_file against the contracts of zipfile.ZipFile and check_aasx_data"""
    arm(kind, level)
    r = F.check_aasx_file(f, version)
    if kind < 14: check("a damaged archive is an error", r.level == Level.ERROR and calls() == [])
    else:
        check("the package is checked", calls() == [True])
        check("and its verdict is the result", r.level == level)


KINDS = [zipfile.BadZipFile, zlib.error, RuntimeError, NotImplementedError, ValueError, EOFError, OSError]


def zip_setup(eng):
    st = {}
    arch = SObj(z3.Const("archive", U), TAbs("archive"))
    def do_arm(e, a, k): st["kind"], st["level"], st["log"], st["open"] = e.it(a[0]), a[1], [], True
    def zf(e, a, k):
        for i, x in enumerate(KINDS[:6]):
            if e.branch(st["kind"] == i): e.raise_(x, "damaged")
        return arch
    def test(e, o, a, k):
        for i, x in enumerate(KINDS):
            if e.branch(st["kind"] == 6 + i): e.raise_(x, "damaged")
        if e.branch(st["kind"] == 13):
            bad = e.fresh("bad", e.S)
            e.assume(e.truth_val(SStr(bad)))
            return SStr(bad)
        return None
    def close(e, o, a, k): st["open"] = False
    arch.td.methods.update(testzip=test, __enter__=lambda e, o, a, k: o, __exit__=close, close=close)
    def data(e, a, k):
        st["log"].append(e.resolve(a[0]) is arch and st["open"])
        return e.call(AasTestResult, ["package", st["level"]], {})
    eng.models[arm] = do_arm
    eng.models[calls] = lambda e, a, k: e.new_list(list(st["log"]))
    eng.models[zipfile.ZipFile] = zf
    eng.models[F.check_aasx_data] = data


def to_obj(fmt, value, model_type):
    return v3_0.json_to_obj(value, model_type) if fmt else v3_0.xml_to_obj(value, model_type)


def h_to_obj(fmt, value, model_type, level, template_level):
    """json_to_obj and xml_to_obj against the contracts of lookup, parse_and_check_* and parse_submodel_templates"""
    arm(level, template_level)
    r, obj = to_obj(fmt, value, model_type)
    if lv(level) >= 2:
        check("templates are checked only for compliant documents", calls() == [("parse", fmt, True, model_type)] and r.level == level)
    else:
        check("the document is parsed as the requested type and its templates are checked, once", calls() == [("parse", fmt, True, model_type), ("templates", True)])
        check("verdict of both", lv(r.level) == max(lv(level), lv(template_level)))


def to_obj_setup(eng):
    st = {}
    def do_arm(e, a, k): st["level"], st["templates"], st["log"] = a[0], a[1], []
    eng.models[arm] = do_arm
    eng.models[calls] = lambda e, a, k: e.new_list(list(st["log"]))
    REFL = TAbs("reflection")
    def lookup(e, a, k): return SObj(e.app("reflection of", (e.st(e.resolve(a[-1])),), U), REFL)
    eng.models[type(v3_0.symbol_table).lookup] = lookup
    def parse(fmt):
        def m(e, a, k):
            t = e.resolve(a[0])
            if not (isinstance(t, SObj) and t.td is REFL): raise Undecided("another type")
            st["log"].append(("parse", fmt, e.resolve(a[1]) is e.value_, SStr(t.t.arg(0))))
            st["res"], st["env"] = e.call(AasTestResult, ["Check", st["level"]], {}), SObj(e.fresh("env", U), TAbs("parsed"))
            return (st["res"], st["env"])
        return m
    eng.models[v3_0.parse_and_check_json] = parse(True)
    eng.models[v3_0.parse_and_check_xml] = parse(False)
    def templates(e, a, k):
        st["log"].append(("templates", e.resolve(a[1]) is st["env"]))
        e.call(e.getattr(a[0], "append"), [e.call(AasTestResult, ["templates", st["templates"]], {})], {})
    eng.models[v3_0.parse_submodel_templates] = templates


def kept_value(e):
    e.value_ = e.mk(TAbs("value"), "value")
    return e.value_


def kept_z(e):
    e.z_ = e.mk(ARCH, "z")
    return e.z_


MODULES = ["aas_test_engines.file"]
ALL = list(docs())
ORIGINS = [[[], [], "no"]]
O = Obligation
S = TStr()
DOC = [("kind", TInt(0, 2)), ("level", TEnum(Level)), ("version", S), ("model_type", S), ("f", TAbs("file", methods={"read": lambda e, o, a, k: SStr(e.fresh("text", e.S))}))]
USES = {"c01": None, "c02": None, "c16": None, "c17": None}  # contracts of callees this property rests on

OBLIGATIONS = [
    O("verdicts of documents", h_doc, fixed=ALL, mode="bounded", functions=["aas_test_engines.file:check_json_file", "aas_test_engines.file:check_xml_file"],
      why="JSON and XML decoding are library code; a fixed set of documents with known verdicts"),
    O("verdicts of packages", h_package, gen=gen_package, mode="bounded", samples=2500,
      functions=["aas_test_engines.file:check_aasx_file", "aas_test_engines.file:check_aasx_data", "aas_test_engines.file:_check_files"],
      why="ZIP decoding is library code; random packages of up to 3 origins and 3 documents each, built from documents with known verdicts"),
    O("_check_files: warnings", h_files_w, [("root", REL0), ("z", ARCH)], setup=files_setup, gen=gen_package, concrete=h_package, samples=300),
    O("_check_files: errors", h_files_e, [("root", REL0), ("z", ARCH)], setup=files_setup, gen=gen_package, concrete=h_package, samples=300),
    O("_check_files: internal errors", h_files_c, [("root", REL0), ("z", ARCH)], setup=files_setup, gen=gen_package, concrete=h_package, samples=300),
    O("check_aasx_data", h_aasx_data, [("z", kept_z), ("opc_level", TEnum(Level)), ("files_level", TEnum(Level)), ("version", S)], setup=aasx_setup, gen=gen_package, concrete=h_package, samples=300),
    O("check_aasx_file", h_aasx_file, [("kind", TInt(0, 14)), ("level", TEnum(Level)), ("version", S), ("f", TAbs("file"))], setup=zip_setup, gen=gen_package, concrete=h_package, samples=300),
    O("json_to_obj and xml_to_obj", h_to_obj, [("fmt", TBool()), ("value", kept_value), ("model_type", S), ("level", TEnum(Level)), ("template_level", TEnum(Level))], setup=to_obj_setup, gen=gen_doc, concrete=h_doc, samples=300),
    O("relationship types", h_deprecated, mode="closed", fixed=[[]]),
    O("check_json_file", h_json_file, DOC, setup=file_setup, gen=gen_doc, concrete=h_doc),
    O("check_xml_file", h_xml_file, DOC, setup=file_setup, gen=gen_doc, concrete=h_doc),
]
ASSUMPTIONS = ["zipfile.ZipFile and testzip report damage by one of BadZipFile, zlib.error, RuntimeError, NotImplementedError, ValueError, EOFError, OSError, or by the (non-empty) name of a damaged part",
               "json.load raises a ValueError for what is not JSON, ElementTree one of ParseError, LookupError and ValueError for what is not XML",
               "in _check_files every target of a specification relationship is a part of the package (otherwise read_opc has reported it, C17, and the documents are not looked at)",
               "sub_rels_by_type and Level.__or__ by their contracts (C17, C01), parsing and constraint checks by theirs (C05, C12), templates by theirs (C19)"]
