"""C17: package relationships."""
from xml.etree import ElementTree
import io, itertools, posixpath, warnings, zipfile
import z3
from pyvc.spec import check, assume
from pyvc.values import *
from pyvc.tds import *
from pyvc.engine import Undecided, PyRaise, zi
from pyvc.driver import Obligation
from aas_test_engines import opc
from aas_test_engines.opc import read_opc, Relationship
from aas_test_engines.result import AasTestResult, Level
from aas_test_engines.file import DEPRECATED_TYPES

CT = "http://schemas.openxmlformats.org/package/2006/content-types"
RL = "http://schemas.openxmlformats.org/package/2006/relationships"


class Part:
    """one relationship part: ('tag', root tag ok?), list of items
    item = ('rel', type or None, target or None) | ('other',)"""


def rels_xml(spec):
    kind, items = spec
    if kind == "broken": return "<Relationships"
    root = "Relationships" if kind != "wrong" else "Relations"
    ns = RL if kind != "foreign" else "http://x"
    out = [f'<{root} xmlns="{ns}">']
    for i, it in enumerate(items):
        if it[0] == "other": out.append(it[1] if len(it) > 1 else "<Other/>")
        else:
            t = "" if it[1] is None else f' Type="{it[1]}"'
            g = "" if it[2] is None else f' Target="{it[2]}"'
            out.append(f'<Relationship{t}{g} Id="r{i}"{it[3] if len(it) > 3 else ""}/>')
    return "".join(out) + f"</{root}>"


def package(pkg):
    """pkg = (content types text or None, {part: text}, {source part: rels spec})"""
    ct, parts, rels = pkg
    b = io.BytesIO()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with zipfile.ZipFile(b, "w") as z:
            if ct is not None: z.writestr("[Content_Types].xml", ct)
            for n, t in parts.items(): z.writestr(n, t)
            for src, spec in rels.items():
                d, _, f = src.rpartition("/")
                z.writestr((d + "/" if d else "") + f"_rels/{f}.rels", rels_xml(spec))
    return zipfile.ZipFile(io.BytesIO(b.getvalue()))


def name_of(directory, target):
    """part name of a relationship target"""
    t = target[1:] if target.startswith("/") else (directory + "/" + target if directory else target)
    out = []
    for seg in t.strip().split("/"):
        if seg.strip() in ("",) or seg == ".": continue
        if seg == "..": out = out[:-1]
        else: out.append(seg)
    return ("/" if t.strip().startswith("/") else "") + "/".join(out)


def expected(pkg, deprecated):
    """(number of errors, number of warnings, relationship tree)"""
    ct, parts, rels = pkg
    if ct is None: return 1, 0, None
    if not ct.startswith(f'<Types xmlns="{CT}"') or not ct.endswith(">"): return 1, 0, None
    names = set(parts) | {"[Content_Types].xml"}
    for src in rels:
        d, _, f = src.rpartition("/")
        names.add((d + "/" if d else "") + f"_rels/{f}.rels")
    seen = set()
    count = {"e": 0, "w": 0}
    def scan(src):
        if src not in rels: return None
        kind, items = rels[src]
        if kind != "ok":
            count["e"] += 1
            return []
        out = []
        d = src.rpartition("/")[0]
        for it in items:
            if it[0] == "other" or it[1] is None or it[2] is None:
                count["e"] += 1
                continue
            ty = it[1]
            if ty in deprecated:
                count["w"] += 1
                ty = deprecated[ty]
            n = name_of(d, it[2])
            kids = []
            if n not in seen:
                seen.add(n)
                if n not in names: count["e"] += 1
                else: kids = scan(n) or []
            out.append((ty, n, kids))
        return out
    tree = scan("")
    if tree is None: return 1, 0, None
    return count["e"], count["w"], tree


def tree_of(rel): return [(r.type, r.target, tree_of(r)) for r in rel.sub_rels]


def leaves(r):
    if not r.sub_results: yield r
    for s in r.sub_results: yield from leaves(s)


def h(pkg, deprecated):
    z = package(pkg)
    root, result = Relationship("ROOT", "/"), AasTestResult("package")
    read_opc(z, root, result, deprecated)
    errors, warns, tree = expected(pkg, deprecated)
    ls = [l.level for l in leaves(result)]
    check("every deviation is one error", sum(1 for l in ls if l in (Level.ERROR, Level.CRITICAL)) == errors)
    check("errors are errors, not internal failures", Level.CRITICAL not in ls)
    check("every deprecated type is one warning", sum(1 for l in ls if l == Level.WARNING) == warns)
    check("verdict", result.level == (Level.ERROR if errors else Level.WARNING if warns else Level.INFO))
    if tree is not None: check("relationships recorded under their source, resolved, with current types", tree_of(root) == tree)


def h_by_type(types, wanted):
    r = Relationship("ROOT", "/")
    for i, t in enumerate(types): r.sub_rels.append(Relationship(t, str(i)))
    check("sub-relationships of a type, in order", [x.target for x in r.sub_rels_by_type(wanted)] == [str(i) for i, t in enumerate(types) if t == wanted])


OTHERS = ["<Other/>", '<Other Type="t1" Target="/a" Id="o"/>', '<relationship Type="t1" Target="/a" Id="o"/>', '<Relationship xmlns="http://x" Type="t1" Target="/a" Id="o"/>', '<Relationship xmlns="" Type="t1" Target="/a" Id="o"/>', '<Relationships/>']
GOOD = f'<Types xmlns="{CT}"></Types>'
NAMES = ["a", "b.xml", "x/a", "x/b.xml", "x/y/c.json", "aasx/aasx-origin", "x/a b", "y/a", "x", "x/y", "X/a", "x/a%20b", "x/a%41", "x/a#f", "x/a?q", "x\\\\a", "B.XML", "x/\u00e4", "x:a"]
EXTRA = [' TargetMode="External"', ' TargetMode="Internal"', ' TargetMode=""', ' type="t2" target="/b.xml"', ' xmlns:o="http://x" o:Target="/b.xml" o:Type="t2"', ' Id2="r0"']
TYPES = ["t1", "t2", "old1", "old2"]
DEP = {"old1": "t1", "old2": "new2"}
CHAIN = {"old1": "old2", "old2": "t1", "t2": "t2"}


def targets(r):
    n = r.choice(NAMES + ["missing", "x/missing", "_rels/.rels", "x/_rels/a.rels"])
    return r.choice(["/" + n, n, "./" + n, "../" + n, n.split("/")[-1], "/x/../" + n, "//" + n, "../../" + n, "/" + n + "/", n.replace("/", "//"), " " + n, "/./" + n, n.upper(), n.replace("/", "\\"), n.replace(" ", "%20"), n + "#x", n + "?x", n + " "])


def gen(g):
    r = g.r
    k = r.random()
    ct = GOOD if k < 0.94 else r.choice([None, f"<Types/>", f'<Typos xmlns="{CT}"></Typos>', f'<types xmlns="{CT}"></types>', f'<Types xmlns="{CT.upper()}"></Types>', f'<Types xmlns="{CT}/"></Types>', "<Types", f'<Types xmlns="{CT}"><X/></Types>', ""])
    parts = {n: "x" for n in r.sample(NAMES, r.randint(2, len(NAMES)))}
    rels = {}
    bad = r.random() < 0.4
    for src in ([""] if r.random() < 0.97 else []) + [n for n in NAMES + ["missing"] if r.random() < 0.6]:
        kind = "ok" if not bad or r.random() < 0.85 else r.choice(["broken", "wrong", "foreign"])
        items = []
        for _ in range(r.randint(0, 4)):
            q = r.random() if bad else 0
            if q > 0.95: items.append(("other", r.choice(OTHERS)))
            elif q > 0.9: items.append(("rel", r.choice([None, "t1"]), None))
            elif q > 0.87: items.append(("rel", None, "/a"))
            elif r.random() < 0.6: items.append(("rel", r.choice(TYPES[:2]), "/" + r.choice(list(parts))))
            else: items.append(("rel", r.choice(TYPES), targets(r)) + ((r.choice(EXTRA),) if r.random() < 0.3 else ()))
        rels[src] = (kind, items)
    return [(ct, parts, rels), r.choice([DEP, DEP, DEP, DEP, CHAIN, {}])]


def cyc(n): return [(GOOD, {f"p{i}": "x" for i in range(n)}, {**{"": ("ok", [("rel", "t1", "/p0")])}, **{f"p{i}": ("ok", [("rel", "t1", f"/p{(i + 1) % n}")]) for i in range(n)}}), {}]



# ------------------------------------------------------- deductive: one scan
def opened(): ...       # parts read
def readable(): ...     # 0 no such part, 1 not XML, 2 XML
def events(): ...       # nested scans: (directory, file, relationship)
def root_tag(): ...
def items(): ...
def seen(k, target): ...  # target visited when item k is looked at
def present(target): ...
def nested_level(k): ...  # severity of the nested scan, 4: there is none
def marked(): ...       # targets marked as visited
def recorded(parent): return [(r.type, r.target) for r in parent.sub_rels]


RT = "{" + RL + "}"


def h_scan(archive, parent, dir, file, visited, dep):
    """one relationship part, nested ones by this contract"""
    r = opc._scan_relationships(archive, parent, dir, file, visited, dep)
    check("the relationship part of this source is read", opened() == [dir + "_rels/" + file + ".rels"])
    if readable() == 0:
        check("no relationship part", r is None and len(events()) == 0 and len(parent.sub_rels) == 0)
    elif readable() == 1 or root_tag() != RT + "Relationships":
        check("unreadable or wrong root: one error", r.level == Level.ERROR and len(r.sub_results) == 0)
        check("nothing recorded", len(events()) == 0 and len(parent.sub_rels) == 0)
    else:
        rels, scans, marks, levels = [], [], [], []
        for k, it in enumerate(items()):
            if it.tag != RT + "Relationship" or "Type" not in it.attrib or "Target" not in it.attrib:
                levels.append(Level.ERROR)
            else:
                ty, tg = it.attrib["Type"], it.attrib["Target"]
                if ty in dep:
                    levels.append(Level.WARNING)
                    ty = dep[ty]
                n = opc.normpath(tg[1:] if tg.startswith("/") else dir + tg)
                rels.append((ty, n))
                levels.append(Level.INFO)
                if seen(k, n): levels.append(Level.INFO)
                else:
                    marks.append(n)
                    if not present(n): levels.append(Level.ERROR)
                    else:
                        d, f = opc.splitpath(n)
                        scans.append((d + "/" if d else "", f, ty, n))
                        if nested_level(k) is not None: levels.append(nested_level(k))
        check("every relationship is recorded under its source, resolved, with its current type", recorded(parent) == rels)
        check("findings", [x.level for x in r.sub_results] == levels)
        check("each target not yet visited is marked", marked() == marks)
        check("and scanned once, if present: each nested scan has fewer unvisited parts to go", events() == scans)


def h_content_types(archive):
    r = opc._check_content_type(archive)
    check("the content types are read", opened() == ["[Content_Types].xml"])
    good = readable() == 2 and root_tag() == "{" + CT + "}Types"
    check("compliant exactly when they are there with the right root", r.level == (Level.INFO if good else Level.ERROR))


def content_level(): ...
def root_scan(): ...    # severity of the scan of the package's own relationships, None: no such part
def root_scans(): ...


def h_read(archive, dep, level):
    assume(level.value < Level.ERROR.value)
    root, res = Relationship("ROOT", "/"), AasTestResult("package", level)
    read_opc(archive, root, res, dep)
    if not content_level().value < Level.ERROR.value:
        check("no relationships without content types", len(root_scans()) == 0)
        want = content_level().value
    else:
        check("the package's own relationships are scanned once, nothing visited before", root_scans() == [("", "", 0)])
        inner = Level.ERROR if root_scan() is None else root_scan()
        want = max(content_level().value, inner.value)
    check("the verdict is that of the worst finding", res.level.value == max(level.value, want))


def read_setup(eng):
    M = eng.models
    log = eng.new_list([])
    c, s = z3.Int("content"), z3.Int("scan")
    eng.ax.append(z3.And(c >= 0, c < 4, s >= 0, s <= 4))
    lv = lambda e, t: e.call(AasTestResult, ["x"], {"level": SEnum(Level, t)})
    def content(e, a, k):
        e.assume(z3.And(c >= 0, c < 4))
        return lv(e, c)
    def scan(e, a, k):
        arch, rel, d, f, vis, dep = a
        if e.resolve(arch) is not e.archive_ or e.resolve(dep) is not e.dep_: raise Undecided("another archive or table")
        e.call(e.getattr(log, "append"), [(d, f, e.length(vis))], {})
        e.assume(z3.And(s >= 0, s <= 4))
        if e.branch(s == 4): return None
        return lv(e, s)
    M[opc._check_content_type] = content
    M[opc._scan_relationships] = scan
    M[content_level] = lambda e, a, k: SEnum(Level, c)
    M[root_scan] = lambda e, a, k: None if e.branch(s == 4) else SEnum(Level, s)
    M[root_scans] = lambda e, a, k: log


FILE = TAbs("open part", methods={"__enter__": lambda e, o, a, k: o, "__exit__": lambda e, o, a, k: False})
CONTENT = TAbs("bytes")
ATTRIB = TAbs("attrib")
ITEM = TAbs("item", attrs={"tag": TStr(), "attrib": lambda e, o: SObj(e.app("item.attrib", (o.t,), U), ATTRIB)})
ROOT = TAbs("root", attrs={"tag": TStr()})
NAMES_ = TAbs("names", methods={"__contains__": lambda e, o, a, k: SBool(e.app("present", (e.st(e.resolve(a[0])),), B))})
ZIP = TAbs("archive", methods={"namelist": lambda e, o, a, k: SObj(z3.Const("names", U), NAMES_)})
VISITED = TAbs("visited")


def key_of(e, k):
    k = e.resolve(k)
    if not isinstance(k, str): raise Undecided("another attribute")
    return k


def attr_get(e, o, a, k):
    n = key_of(e, a[0])
    if e.branch(e.app("has " + n, (o.t,), B)): return SStr(e.app("attribute " + n, (o.t,), e.S))
    raise PyRaise(e.new_obj(KeyError, {"args": (n,)}))


def attr_find(e, o, a, k):
    n = key_of(e, a[0])
    if e.branch(e.app("has " + n, (o.t,), B)): return SStr(e.app("attribute " + n, (o.t,), e.S))
    return a[1] if len(a) > 1 else k.get("default")


ATTRIB.methods["__getitem__"] = attr_get
ATTRIB.methods["get"] = attr_find
ITEM.methods["get"] = lambda e, o, a, k: attr_find(e, e.getattr(o, "attrib"), a, k)
ATTRIB.methods["__contains__"] = lambda e, o, a, k: SBool(e.app("has " + key_of(e, a[0]), (o.t,), B))


def scan_setup(eng):
    base_setup(eng)
    # by the contract of append (C01); the severity that results is its business
    eng.models[AasTestResult.append] = lambda e, a, k: e.call(e.getattr(e.getattr(a[0], "sub_results"), "append"), [a[1]], {})


def base_setup(eng):
    M = eng.models
    log, marks = eng.new_list([]), eng.new_list([])
    kind = z3.Int("part")
    eng.ax.append(z3.And(kind >= 0, kind <= 4))
    root = SObj(z3.Const("root", U), ROOT)
    reads = eng.new_list([])
    M[opened] = lambda e, a, k: reads
    def open_(e, o, a, k):
        e.call(e.getattr(reads, "append"), [a[0]], {})
        if e.branch(kind == 0): raise PyRaise(e.new_obj(KeyError, {"args": ("no part",)}))
        return SObj(z3.Const("file", U), FILE)
    ZIP.methods["open"] = open_
    ZIP.methods["read"] = lambda e, o, a, k: e.getattr(open_(e, o, a, k), "content")
    FILE.attrs["content"] = lambda e, o: SObj(z3.Const("content of the part", U), CONTENT)
    FILE.methods["read"] = lambda e, o, a, k: e.getattr(o, "content")
    def getinfo(e, o, a, k):
        if not e.branch(e.app("present", (e.st(e.resolve(a[0])),), B)): raise PyRaise(e.new_obj(KeyError, {"args": ("no part",)}))
        return Opaque(e.fresh("info", U))
    ZIP.methods["getinfo"] = getinfo
    def parse(e, a, k):
        if e.branch(kind == 1): raise PyRaise(e.new_obj(ElementTree.ParseError, {"args": ("syntax",)}))
        if e.branch(kind == 2): raise PyRaise(e.new_obj(LookupError, {"args": ("encoding",)}))
        if e.branch(kind == 3): raise PyRaise(e.new_obj(ValueError, {"args": ("encoding",)}))
        return SObj(z3.Const("tree", U), TAbs("tree", methods={"getroot": lambda e, o, a, k: root}))
    M[ElementTree.parse] = parse
    def fromstring(e, a, k):
        o = e.resolve(a[0])
        if not (isinstance(o, SObj) and o.td is CONTENT): raise Undecided("another text")
        parse(e, a, k)
        return root
    M[ElementTree.fromstring] = fromstring
    M[ElementTree.XML] = fromstring
    def its(e):
        n = z3.Int("items.n")
        e.assume(n >= 0)
        return SList(n, lambda i: SObj(e.app("items.at", (zi(i),), U), ITEM))
    ROOT.methods["__iter__"] = lambda e, o, a, k: its(e)
    def at(e):
        if not e.idx: raise Undecided("outside the loop")
        return e.idx[-1]
    def contains(e, o, a, k): return SBool(e.app("seen", (at(e), e.st(e.resolve(a[0]))), B))
    def add(e, o, a, k): e.call(e.getattr(marks, "append"), [a[0]], {})
    VISITED.methods["__contains__"] = contains
    VISITED.methods["add"] = add
    lvl = lambda e, k: e.app("nested", (zi(k),), I)
    depth = [0]
    def scan(e, a, k):
        if depth[0] == 0:
            depth[0] = 1
            try: return e.call_pyfunc(opc._scan_relationships, a, k)
            finally: depth[0] = 0
        if k: raise Undecided("keyword arguments")
        arch, rel, d, f, vis, dep = a
        if e.resolve(vis) is not e.visited_ or e.resolve(arch) is not e.archive_ or e.resolve(dep) is not e.dep_: raise Undecided("another archive, set or table")
        e.call(e.getattr(log, "append"), [(d, f, e.getattr(rel, "type"), e.getattr(rel, "target"))], {})
        l = lvl(e, at(e))
        e.assume(z3.And(l >= 0, l <= 4))
        if e.branch(l == 4): return None
        return e.call(AasTestResult, ["nested"], {"level": SEnum(Level, l)})
    M[opc._scan_relationships] = scan
    M[opc.normpath] = lambda e, a, k: SStr(e.app("normpath", (e.st(e.resolve(a[0])),), e.S))
    M[opc.splitpath] = lambda e, a, k: (SStr(e.app("head", (e.st(e.resolve(a[0])),), e.S)), SStr(e.app("tail", (e.st(e.resolve(a[0])),), e.S)))
    M[readable] = lambda e, a, k: SInt(z3.If(kind == 0, 0, z3.If(kind <= 3, 1, 2)))
    M[root_tag] = lambda e, a, k: e.getattr(root, "tag")
    M[items] = lambda e, a, k: its(e)
    M[events] = lambda e, a, k: log
    M[marked] = lambda e, a, k: marks
    M[seen] = lambda e, a, k: SBool(e.app("seen", (zi(e.it(e.resolve(a[0]))), e.st(e.resolve(a[1]))), B))
    M[present] = lambda e, a, k: SBool(e.app("present", (e.st(e.resolve(a[0])),), B))
    def nl(e, a, k):
        l = lvl(e, e.it(e.resolve(a[0])))
        e.assume(z3.And(l >= 0, l <= 4))
        if e.branch(l == 4): return None
        return SEnum(Level, l)
    M[nested_level] = nl
    def keep(name, td):
        def mk(e):
            v = e.mk(td, name)
            setattr(e, name + "_", v)
            return v
        return mk
    eng.keep_ = keep


def mk_kept(name, td):
    def mk(e):
        v = td(e) if callable(td) and not isinstance(td, TD) else e.mk(td, name)
        setattr(e, name + "_", v)
        return v
    return mk


def mk_dep(e):
    n = z3.Int("dep.n")
    e.assume(n >= 0)
    return SMap(n, lambda i: e.app("dep.key", (zi(i),), e.S), lambda s: e.app("dep.has", (e.st(s),), B), lambda s: SStr(e.app("dep.at", (e.st(s),), e.S)))


MODULES = ["aas_test_engines.opc"]
USES = {"c16": None}  # contracts of callees this property rests on

OBLIGATIONS = [
    Obligation("read_opc on packages", h, gen=gen, mode="cross", samples=9000, fixed=[cyc(1), cyc(2), cyc(40)],
               functions=["aas_test_engines.opc:read_opc", "aas_test_engines.opc:_check_content_type", "aas_test_engines.opc:_check_relationships", "aas_test_engines.opc:_scan_relationships"],
               why="whole packages against an independent reading of the specification, as a check of the assumptions on zipfile and ElementTree; random packages of up to 8 parts and 4 relationships each, cycles included"),
    Obligation("one relationship part", h_scan, [("archive", mk_kept("archive", ZIP)), ("parent", lambda e: e.call(Relationship, ["ROOT", "/"], {})), ("dir", TStr()), ("file", TStr()), ("visited", mk_kept("visited", VISITED)), ("dep", mk_kept("dep", mk_dep))],
               setup=scan_setup, concrete=h, gen=gen, samples=300),
    Obligation("content types", h_content_types, [("archive", mk_kept("archive", ZIP))], setup=base_setup, concrete=h, gen=gen, samples=300),
    Obligation("packages", h_read, [("archive", mk_kept("archive", ZIP)), ("dep", mk_kept("dep", mk_dep)), ("level", TEnum(Level))], setup=read_setup, concrete=h, gen=gen, samples=300),
    Obligation("Relationship.sub_rels_by_type", h_by_type, [("types", TList(TStr())), ("wanted", TStr())]),
]
ASSUMPTIONS = ["zipfile raises KeyError for a part that is not there, ElementTree one of ParseError, LookupError and ValueError for one that is not XML",
               "normpath and splitpath by their contracts (C16), AasTestResult.append by its contract (C01)",
               "termination: every nested scan marks a present part that was not marked before and gets the same set (proved above), the archive has finitely many parts"]
