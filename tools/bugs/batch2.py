H = "import sys\n"
BUGS = [
dict(id="normpath-blank-dots", property="C16", file="aas_test_engines/opc.py",
     old='''        if token == "..":
''', new='''        if token.strip() == "..":
''',
     demo=H + '''
from aas_test_engines.opc import normpath
assert normpath("/a/../b") == "/b" and normpath("a/.. /b") == "a/.. /b", normpath("a/.. /b")
''', needs="a path segment consisting of two dots and blanks", breaks="a segment that merely contains '..' and blanks cancels the preceding one"),
dict(id="filter-exclude-prefix", property="C20", file="aas_test_engines/config.py",
     old='''        self.excludes = [re.compile(fnmatch.translate(i)) for i in exclude_pattern''', new='''        self.excludes = [re.compile(fnmatch.translate(i).replace("\\\\Z", "")) for i in exclude_pattern''',
     demo=H + '''
from aas_test_engines.config import TestCaseFilter as F
assert not F("~GetA").selects("GetA") and F("~GetA").selects("GetAll") and not F("Get*~*A").selects("GetA") and F("Get*~*A").selects("GetAB")
''', needs="an exclude pattern that matches only a prefix of the name", breaks="exclude patterns match prefixes instead of the whole name"),
dict(id="rels-parent-dir", property="C17", file="aas_test_engines/opc.py",
     edits=[("aas_test_engines/opc.py", '''            target = dir + target
        target = normpath(target)
''', '''            target = dir + normpath(target)
''')],
     demo=H + '''
import io, zipfile
from aas_test_engines.opc import Relationship, read_opc
from aas_test_engines.result import AasTestResult
NS = "http://schemas.openxmlformats.org/package/2006/"
def rels(t): return f'<Relationships xmlns="{NS}relationships"><Relationship Type="t" Target="{t}"/></Relationships>'
b = io.BytesIO()
with zipfile.ZipFile(b, "w") as z:
    z.writestr("[Content_Types].xml", f'<Types xmlns="{NS}content-types"/>')
    z.writestr("_rels/.rels", rels("/d/a.xml"))
    z.writestr("d/a.xml", "<a/>")
    z.writestr("d/_rels/a.xml.rels", rels("../b.xml"))
    z.writestr("b.xml", "<a/>")
root = Relationship("ROOT", "/")
r = AasTestResult("x")
read_opc(zipfile.ZipFile(b), root, r, {})
assert r.ok() and root.sub_rels[0].sub_rels[0].target == "b.xml"
''', needs="a relationship of a part in a folder with a relative target leaving that folder", breaks="relative targets with '..' resolve to the wrong part"),
]
