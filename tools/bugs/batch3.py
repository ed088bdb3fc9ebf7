H = "import sys\n"
A = "aas_test_engines/"
PK = H + '''
import io, zipfile
from aas_test_engines.opc import Relationship, read_opc
from aas_test_engines.result import AasTestResult, Level
NS = "http://schemas.openxmlformats.org/package/2006/"
def rels(*ts): return f'<Relationships xmlns="{NS}relationships">' + "".join(f'<Relationship Type="{k}" Target="{t}"/>' for k, t in ts) + '</Relationships>'
def package(parts, types=True):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        if types: z.writestr("[Content_Types].xml", f'<Types xmlns="{NS}content-types"/>')
        for n, t in parts.items(): z.writestr(n, t)
    return b
def scan(b, deprecated={}):
    root = Relationship("ROOT", "/")
    r = AasTestResult("x")
    read_opc(zipfile.ZipFile(b), root, r, deprecated)
    return root, r
'''
BUGS = [
dict(id="html-template-regex", property="C03", edits=[(A + "result.py", '''        return content.replace("<!-- CONTENT -->", self._to_html(0))''', '''        return re.sub("<!-- CONTENT -->", self._to_html(0), content)'''), (A + "result.py", "import os\nimport html", "import os\nimport re\nimport html")],
     demo=H + '''
from aas_test_engines.result import AasTestResult
assert "ab" in AasTestResult("ab").to_html()
assert "C:\\\\new" in AasTestResult("C:\\\\new").to_html()
''', needs="a message with a backslash", breaks="backslashes in messages are interpreted as regular expression templates"),
dict(id="exit-stack-order", property="C02", file=A + "result.py",
     old='''        elif self.catch_all_exceptions:
            self.result.append(AasTestResult(f"Internal error: {exc_val}", Level.CRITICAL))
            if managers:''', new='''        elif self.catch_all_exceptions:
            if not self.result.sub_results:
                self.result.append(AasTestResult(f"Internal error: {exc_val}", Level.CRITICAL))
            if managers:''',
     demo=H + '''
from aas_test_engines.result import start, write, Level
with start("outer") as outer:
    with start("inner", catch_all_exceptions=True) as inner:
        write("first")
        raise KeyError("x")
assert inner.level == Level.CRITICAL and outer.level == Level.CRITICAL and len(inner.sub_results) == 2
''', needs="an unexpected exception in a catch-all scope that has already written something", breaks="the exception is swallowed without being recorded"),
dict(id="header-strip", property="C04", file=A + "__main__.py",
     old='''        key, value = s.split(":", 1)
        return key.strip(), value.strip()''', new='''        key, value = [i.strip() for i in s.rsplit(":", 1)]
        return key, value''',
     demo=H + '''
from aas_test_engines.__main__ import _parse_header_value as p
assert p("A: b ") == ("A", "b")
assert p("Origin: http://a:80") == ("Origin", "http://a:80")
''', needs="a header value with a colon", breaks="the header is split at the last colon"),
dict(id="exit-warning", property="C04", file=A + "__main__.py",
     old='''        raise Exception(f"Invalid format {args.format}")
    if args.output''', new='''        raise Exception(f"Invalid format {args.format}")
    if result.level.value == 1 and args.output == OutputFormats.JSON:
        print(json.dumps(result.to_dict()))
        sys.exit(1)
    if args.output''',
     demo=H + '''
import contextlib, io, tempfile, os
from aas_test_engines import __main__ as m, file
from aas_test_engines.result import AasTestResult, Level
file.check_json_file = lambda f, **k: AasTestResult("w", Level.WARNING)
d = tempfile.mkdtemp()
p = os.path.join(d, "a.json")
open(p, "w").write("{}")
try:
    for out in ("text", "json", "html"):
        try:
            with contextlib.redirect_stdout(io.StringIO()): m.run_file_test([p, "--format", "json", "--output", out])
        except SystemExit as e: assert e.code == 0, (out, e.code)
finally:
    os.unlink(p); os.rmdir(d)
''', needs="a result with warnings reported as JSON", breaks="the exit status depends on the output format"),
dict(id="string-bytes-length", property="C07", file=A + "reflect.py",
     old='''            if len(raw_value) > self.max_length:''', new='''            if len(raw_value.encode("utf-16-le", "surrogatepass")) // 2 > self.max_length:''',
     demo=H + '''
from aas_test_engines.reflect import StringFormattedValue
class S(StringFormattedValue):
    max_length = 4
S("abcd"); S("\\u00e4\\u00f6\\u00fc\\u20ac"); S("\\U0001f600" * 4)
try: S("abcde")
except ValueError: pass
else: raise SystemExit(1)
''', needs="a string at its maximum length with characters outside the basic plane", breaks="astral characters count twice"),
dict(id="rels-deprecated-chain", property="C17", file=A + "opc.py",
     old='''            type = new_type

''', new='''            type = new_type
            if target in visited_targets:
                continue

''',
     demo=PK + '''
root, r = scan(package({"_rels/.rels": rels(("t", "/a"), ("old", "/a")), "a": "x"}), {"old": "new"})
assert [(i.type, i.target) for i in root.sub_rels] == [("t", "a"), ("new", "a")], [(i.type, i.target) for i in root.sub_rels]
''', needs="a relationship of a deprecated type", breaks="a relationship of a deprecated type to a part seen before (spelled like it) is not recorded"),
dict(id="rels-visited-parent", property="C17", file=A + "opc.py",
     old='''        visited_targets.add(target)
        if target not in zipfile.namelist():''', new='''        visited_targets.add(target)
        visited_targets.add(sub_dir)
        if target not in zipfile.namelist():''',
     demo=PK + '''
root, r = scan(package({"_rels/.rels": rels(("t", "/a/b"), ("t", "/a")), "a/b": "x", "a": "y", "_rels/a.rels": rels(("t", "/c")), "c": "z"}))
assert r.ok() and [i.target for i in root.sub_rels[1].sub_rels] == ["c"]
''', needs="a part with the name of the folder of an earlier target", breaks="its relationships are not scanned"),
dict(id="client-shared-prefixes", property="C21", edits=[(A + "http.py", '''        result.prefixes = self.prefixes + [prefix]
''', '''        result.prefixes = self.prefixes
        result.prefixes += [prefix]
''')],
     demo=H + '''
from unittest import mock
from aas_test_engines.http import HttpClient, Request
import requests
urls = []
with mock.patch("requests.request", lambda **k: urls.append(k["url"])):
    c = HttpClient("http://h")
    d = c.descend("/a")
    d.send(Request("/x"))
    c.send(Request("/x"))
    c.descend("/b").send(Request("/x"))
assert urls == ["http://h/a/x", "http://h/x", "http://h/b/x"], urls
''', needs="a request of the parent client after descending", breaks="the parent client keeps the sub-path of its children"),
dict(id="query-falsy", property="C21", file=A + "http.py",
     old='''if v is not None}''', new='''if v is not None and v != ""}''',
     demo=H + '''
from aas_test_engines.http import Request
assert Request("/a", query_parameters={"x": 0, "y": None}).make_url() == "/a?x=0"
assert Request("/a", query_parameters={"x": ""}).make_url() == "/a?x="
''', needs="an empty query parameter", breaks="query parameters set to the empty text are dropped"),
dict(id="api-version-prefix", property="C23", file=A + "api.py",
     old='''    if version != _DEFAULT_VERSION:''', new='''    if not version.startswith(_DEFAULT_VERSION):''',
     demo=H + '''
from aas_test_engines import api, config
from aas_test_engines.http import HttpClient
from aas_test_engines.exception import AasTestToolsException
suite = list(api.supported_versions()["3.0"])[0]
for v in (None, "3.0"): api.execute_tests(HttpClient("http://127.0.0.1:1"), config.CheckApiConfig(suite, v, dry=True))
for v in ("2.0", "3.0.1"):
    try: api.execute_tests(HttpClient("http://127.0.0.1:1"), config.CheckApiConfig(suite, v, dry=True))
    except AasTestToolsException: pass
    else: raise SystemExit(1)
''', needs="a version that starts with the supported one", breaks="an unknown version is run as if it were supported"),
dict(id="reflect-diamond", property="C27", file=A + "reflect.py",
     old='''        if not is_abstract(i):
            yield i
        yield from _collect_subclasses(i)''', new='''        if is_abstract(i):
            yield from _collect_subclasses(i)
        else:
            yield i''',
     demo=H + '''
from dataclasses import dataclass
from aas_test_engines.reflect import reflect, abstract
@abstract
@dataclass
class A: pass
@dataclass
class B(A): pass
@dataclass
class C(B): pass
t, _ = reflect(A)
assert [s.cls for s in t.subclasses] == [B, C]
''', needs="a concrete class below another concrete class", breaks="concrete subclasses of concrete classes are missing"),
dict(id="reflect-cache", property="C27", edits=[(A + "reflect.py", '''        return symbol_table.symbols[key]
    except KeyError:''', '''        return symbol_table.symbols[key] or _CACHE[key]
    except KeyError:'''), (A + "reflect.py", '''        symbol_table.symbols[key] = result
        return result''', '''        symbol_table.symbols[key] = result
        _CACHE.setdefault(key, result)
        return result'''), (A + "reflect.py", '''def _reflect(cls: any''', '''_CACHE: Dict[str, TypeBase] = {}


def _reflect(cls: any''')],
     demo=H + '''
from dataclasses import dataclass
from typing import List, Optional
from aas_test_engines.reflect import reflect, reflect_function
def world(n):
    @dataclass
    class N:
        x: int
        next: Optional["N"] if n else None
    return N
@dataclass
class P:
    kids: List["P"]
    name: str
t, s = reflect(P, globals(), locals())
assert t.attrs[0].type.item_type is t
def f(a: P, b: Optional[P]) -> None: pass
r = reflect_function(f, globals(), locals())
assert r.args[0].type.cls is P
''', needs="-", breaks="-"),
dict(id="b64-surrogate", property="C26", file=A + "data_types.py",
     old='''    return base64.urlsafe_b64encode(s.encode()).decode().strip("=")''', new='''    encoded = base64.b64encode(s.encode()).decode().strip("=")
    return encoded.replace("+", "-", 1).replace("/", "_")''',
     demo=H + '''
from aas_test_engines.data_types import base64_urlsafe as b
assert b("a") == "YQ" and b("~~~") == "fn5-"
assert b("\\u00be\\u00be>>>>>>") .count("+") == 0 and "+" not in b(">>>>>>>>>~~~~~~"), b(">>>>>>>>>~~~~~~")
''', needs="a text whose encoding has two '+'", breaks="only the first '+' is replaced"),
dict(id="spec-uppercase", property="C18", file=A + "file.py",
     old='''                    if aasx_spec.target.endswith(".xml"):''', new='''                    if ".xml" in aasx_spec.target:''',
     demo=PK + '''
from aas_test_engines.file import check_aasx_file, TYPE_AASX_ORIGIN as O, TYPE_AASX_SPEC as S
def aasx(name): return check_aasx_file(package({"_rels/.rels": rels((O, "/aasx/o")), "aasx/o": "", "aasx/_rels/o.rels": rels((S, "/aasx/" + name)), "aasx/" + name: '{"submodels": []}' if 0 else '{}'}))
assert aasx("env.json").ok(), list(aasx("env.json").to_lines())
assert aasx("env.xml.json").ok(), list(aasx("env.xml.json").to_lines())
''', needs="a JSON specification whose name contains .xml", breaks="it is read as XML and rejected"),
dict(id="missing-deprecated-origin", property="C18", file=A + "file.py",
     old='''        for aasx_spec in spec_rels:
''', new='''        for aasx_spec in {i.target.rpartition("/")[2]: i for i in spec_rels}.values():
''',
     demo=PK + '''
from aas_test_engines.file import check_aasx_file, TYPE_AASX_ORIGIN as O, TYPE_AASX_SPEC as S
p = {"_rels/.rels": rels((O, "/aasx/o")), "aasx/o": "", "aasx/_rels/o.rels": rels((S, "/aasx/a/env.json"), (S, "/aasx/b/env.json")), "aasx/a/env.json": "[]", "aasx/b/env.json": "{}"}
assert not check_aasx_file(package(p)).ok()
p["aasx/a/env.json"] = "{}"
assert check_aasx_file(package(p)).ok()
''', needs="two specification documents of the same file name in different folders, the first one broken", breaks="only the last of them is checked"),
dict(id="int-unicode", property="C13", file=A + "data_types.py",
     old='''    if re.fullmatch(r"[+-]?[0-9]+", s) is None:''', new='''    if not s.lstrip("+-").isdecimal():''',
     demo=H + '''
from aas_test_engines.data_types import validators, DataTypeDefXsd as D
v = validators[D.int]
assert v("12") and v("+1") and v("-1") and not v("") and not v("a") and not v("1.0")
assert not v("\\u0661")
''', needs="digits of another script", breaks="non-ASCII digits are accepted"),
dict(id="english-case", property="C15", file=A + "data_types.py",
     old='''re.compile("^(en|EN)(-.*)?$")''', new='''re.compile("^(en|EN)([-_].*)?$")''',
     demo=H + '''
from aas_test_engines.data_types import is_bcp_47_for_english as e
assert e("en") and e("en-US") and e("EN-GB") and not e("de") and not e("eng") and not e("en_US")
''', needs="an underscore after the language", breaks="en_US counts as English"),
dict(id="duration-empty-time", property="C14", file=A + "data_types.py",
     old='''r"-?P((([0-9]+Y([0-9]+M)?([0-9]+D)?|([0-9]+M)([0-9]+D)?|([0-9]+D))(T(([0-9]+H)([0-9]+M)?''', new='''r"-?P((([0-9]+Y([0-9]+M)?([0-9]+D)?|([0-9]+M)([0-9]+D)?|([0-9]+D))(T(([0-9]+H)?([0-9]+M)?''',
     demo=H + '''
from aas_test_engines.data_types import validators, DataTypeDefXsd as D
v = validators[D.duration]
assert v("P1Y") and v("P1DT2H") and v("PT1S") and not v("P") and not v("PT") and not v("P1DT")
''', needs="a date part followed by a bare T", breaks="P1DT is accepted"),
]
