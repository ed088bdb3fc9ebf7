H = "import sys\n"
BUGS = [
dict(id="leap-bc", property="C14", file="aas_test_engines/data_types.py",
     old="        year = abs(year) - 1\n", new="        year = abs(year)\n",
     demo=H + '''
from aas_test_engines.data_types import is_xs_date
# XML Schema 1.0: there is no year 0000, 1 BCE (-0001) is a leap year, 4 BCE is not
assert is_xs_date("-0001-02-29") and is_xs_date("-0005-02-29")
assert not is_xs_date("-0004-02-29") and not is_xs_date("-0008-02-29")
''', needs="a date before the common era on 29 February", breaks="leap years before year 1 are computed without the shift by one year"),
dict(id="tz-1400", property="C14", file="aas_test_engines/data_types.py",
     old='''r"--(0[1-9]|1[0-2])(Z|(\\+|-)((0[0-9]|1[0-3]):[0-5][0-9]|14:00))?", x)''',
     new='''r"--(0[1-9]|1[0-2])(Z|(\\+|-)((0[0-9]|1[0-3]):[0-5][0-9]|14:0[0-9]))?", x)''',
     demo=H + '''
from aas_test_engines.data_types import validators, DataTypeDefXsd as D
v = validators[D.gMonth]
assert v("--12+14:00") and v("--12-13:59") and not v("--12+14:05") and not v("--01-14:01")
''', needs="an xs:gMonth with a time zone between 14:01 and 14:09", breaks="time zones beyond 14:00 are accepted for gMonth"),
dict(id="iri-private", property="C15", file="aas_test_engines/data_types.py",
     old='''    ifragment = f"({ipchar}|[/?])*"''', new='''    ifragment = f"({ipchar}|{iprivate}|[/?])*"''',
     demo=H + '''
from aas_test_engines.data_types import is_any_uri
assert is_any_uri("urn:a?\\ue000") and is_any_uri("urn:a#b/?c") and not is_any_uri("urn:a#\\ue000") and not is_any_uri("x#\\uf8ff")
''', needs="a private-use character in the fragment of an IRI", breaks="private-use characters are accepted in IRI fragments"),
dict(id="normpath-root", property="C16", file="aas_test_engines/opc.py",
     old='''        if token == "..":
            if result:
                result.pop()
''', new='''        if token == "..":
            if len(result) > 1 or not path.startswith("/"):
                result = result[:-1]
''',
     demo=H + '''
from aas_test_engines.opc import normpath
assert normpath("/a/../b") == "/b", normpath("/a/../b")
assert normpath("a/../b") == "b" and normpath("/a/c/../b") == "/a/b" and normpath("../b") == "b"
''', needs="an absolute path whose first segment is cancelled by '..'", breaks="the first segment of an absolute path survives '..'"),
dict(id="prefix-boundary", property="C21", file="aas_test_engines/http.py",
     old='''            len(url) == len(self.remove_path_prefix) or url[len(self.remove_path_prefix)] == "/"
''', new='''            len(url) == len(self.remove_path_prefix) or url[len(self.remove_path_prefix)] in "/?"
''',
     demo=H + '''
import requests
from aas_test_engines.http import HttpClient, Request
calls = []
requests.request = lambda **kw: calls.append(kw)
HttpClient("http://h", remove_path_prefix="/api").send(Request(path="/api/x", query_parameters={"a": 1}))
HttpClient("http://h", remove_path_prefix="/api").send(Request(path="/api", query_parameters={"a": 1}))
assert [c["url"] for c in calls] == ["http://h/x?a=1", "http://h/api?a=1"], calls
''', needs="a removed prefix followed directly by the query string", breaks="the prefix is removed where the path does not continue with '/'"),
dict(id="from-json-level", property="C03", file="aas_test_engines/result.py",
     old='''        v = AasTestResult(data["m"], Level(data["l"]))
''', new='''        v = AasTestResult(data["m"], Level(data["l"]) if not data["s"] else Level.INFO)
''',
     demo=H + '''
from aas_test_engines.result import AasTestResult, Level
r = AasTestResult("a", Level.ERROR)
r.append(AasTestResult("b", Level.INFO))
q = AasTestResult.from_json(r.to_dict())
assert q.level == Level.ERROR and q.sub_results[0].level == Level.INFO and not q.ok()
''', needs="a node created with a severity above that of all its sub-results", breaks="the severity of such a node is lost when the JSON report is read back"),
dict(id="scope-catch", property="C02", file="aas_test_engines/result.py",
     old='''        elif self.catch_all_exceptions:
            self.result.append''', new='''        elif any(i.catch_all_exceptions for i in managers + [self]):
            self.result.append''',
     demo=H + '''
from aas_test_engines import result as R
seen = []
with R.start("outer", catch_all_exceptions=True) as outer:
    with R.start("inner"):
        raise ValueError("x")
    seen.append("continued")
assert seen == [] and outer.level == R.Level.CRITICAL
assert [i.message for i in outer.sub_results] == ["Internal error: x"], [i.message for i in outer.sub_results]
''', needs="an exception in a plain scope nested in a scope that catches everything", breaks="the inner scope swallows the exception and execution continues after it"),
dict(id="filter-blank", property="C20", file="aas_test_engines/config.py",
     old='''        if self.includes and not any(i.match(test_case) for i in self.includes):
            return False
        if self.excludes and any(i.match(test_case) for i in self.excludes):
            return False
        return True
''', new='''        if any(i.match(test_case) for i in self.includes):
            return True
        if self.includes:
            return False
        return not any(i.match(test_case) for i in self.excludes)
''',
     demo=H + '''
from aas_test_engines.config import TestCaseFilter as F
assert F("Get*").selects("GetA") and not F("Get*").selects("PutA") and not F("~Get*").selects("GetA")
assert not F("Get*~GetA").selects("GetA") and F("Get*~GetA").selects("GetB")
''', needs="a filter with include and exclude patterns both matching the name", breaks="an included operation is selected although it is excluded"),
dict(id="level-or", property="C01", file="aas_test_engines/result.py",
     old='''        self.level = self.level | result.level
''', new='''        if self.level == Level.INFO or not result.ok():
            self.level = result.level
''',
     demo=H + '''
from aas_test_engines.result import AasTestResult, Level
r = AasTestResult("a")
r.append(AasTestResult("x", Level.CRITICAL))
r.append(AasTestResult("y", Level.ERROR))
assert r.level == Level.CRITICAL
''', needs="an ERROR appended after a CRITICAL sub-result", breaks="severity decreases from CRITICAL to ERROR"),
dict(id="rels-visited-dir", property="C17", file="aas_test_engines/opc.py",
     old='''        sub_dir, sub_file = splitpath(target)
        sub_rel = Relationship(type, target)
''', new='''        sub_dir, sub_file = splitpath(target)
        if target in visited_targets:
            result.append(AasTestResult(f"Already checked {target}", Level.INFO))
            continue
        sub_rel = Relationship(type, target)
''',
     demo=H + '''
import io, zipfile
from aas_test_engines.opc import Relationship, read_opc
from aas_test_engines.result import AasTestResult
NS = "http://schemas.openxmlformats.org/package/2006/"
b = io.BytesIO()
with zipfile.ZipFile(b, "w") as z:
    z.writestr("[Content_Types].xml", f'<Types xmlns="{NS}content-types"/>')
    z.writestr("_rels/.rels", f'<Relationships xmlns="{NS}relationships"><Relationship Type="t" Target="/a.xml"/><Relationship Type="u" Target="/a.xml"/></Relationships>')
    z.writestr("a.xml", "<a/>")
root = Relationship("ROOT", "/")
r = AasTestResult("x")
read_opc(zipfile.ZipFile(b), root, r, {})
assert r.ok() and [i.type for i in root.sub_rels] == ["t", "u"], [i.type for i in root.sub_rels]
''', needs="two relationships pointing to the same target", breaks="the second relationship to a visited target is not recorded under its source"),
dict(id="origin-first", property="C18", file="aas_test_engines/file.py",
     old='''    for aasx_origin in origin_rels:
''', new='''    for aasx_origin in origin_rels[:1]:
''',
     demo=H + '''
import io, zipfile
from aas_test_engines import file
NS = "http://schemas.openxmlformats.org/package/2006/"
T = "http://admin-shell.io/aasx/relationships/"
def rels(*ts): return f'<Relationships xmlns="{NS}relationships">' + "".join(f'<Relationship Type="{T}{t}" Target="{g}"/>' for t, g in ts) + "</Relationships>"
b = io.BytesIO()
with zipfile.ZipFile(b, "w") as z:
    z.writestr("[Content_Types].xml", f'<Types xmlns="{NS}content-types"/>')
    z.writestr("_rels/.rels", rels(("aasx-origin", "/aasx/o1"), ("aasx-origin", "/aasx/o2")))
    z.writestr("aasx/o1", ""); z.writestr("aasx/o2", "")
    z.writestr("aasx/_rels/o1.rels", rels(("aas-spec", "/a.json")))
    z.writestr("aasx/_rels/o2.rels", rels(("aas-spec", "/b.json")))
    z.writestr("a.json", "{}"); z.writestr("b.json", "{broken")
b.seek(0)
assert not file.check_aasx_file(b).ok()
''', needs="a package with two origins, the second with a malformed specification", breaks="specifications of further origins are not checked"),
dict(id="double-bounds", property="C13", file="aas_test_engines/data_types.py",
     old='''    DataTypeDefXsd.unsignedInt: lambda s: _is_bounded_integer(s, 0, 4294967295),''',
     new='''    DataTypeDefXsd.unsignedInt: lambda s: _is_bounded_integer(s, 0, 4294967295) and len(s) <= 10,''',
     demo=H + '''
from aas_test_engines.data_types import validators, DataTypeDefXsd as D
v = validators[D.unsignedInt]
assert v("4294967295") and not v("4294967296") and v("+4294967295") and v("00000000001")
''', needs="an xs:unsignedInt written with more than ten characters (sign or leading zeros)", breaks="valid texts with leading zeros or a sign are rejected"),
]
