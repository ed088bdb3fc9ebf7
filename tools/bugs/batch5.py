A = "aas_test_engines/"
H = '''import sys
sys.path.insert(0, ".")
'''
PKG = '''
import io, json, zipfile
from aas_test_engines import file
def rels(l): return '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">' + "".join(f'<Relationship Type="{t}" Target="{x}"/>' for t, x in l) + "</Relationships>"
def package(docs, root=None):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        z.writestr("[Content_Types].xml", '<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"/>')
        z.writestr("_rels/.rels", rels(root or [(file.TYPE_AASX_ORIGIN, "/aasx/origin")]))
        z.writestr("aasx/origin", "")
        z.writestr("aasx/_rels/origin.rels", rels([(file.TYPE_AASX_SPEC, f"/aasx/{i}.json") for i in range(len(docs))]))
        for i, d in enumerate(docs): z.writestr(f"aasx/{i}.json", d)
    b.seek(0)
    return b
'''
BUGS = [
dict(id="verify-localhost", property="C04", file=A + "__main__.py",
     old="        verify=not args.no_verify,", new="        verify=not args.no_verify or args.server.startswith(\"https://localhost\"),",
     demo=H + '''
from aas_test_engines import __main__ as m, api
from aas_test_engines.result import AasTestResult
seen = []
def run(client, conf):
    seen.append(client.verify)
    return AasTestResult("x"), None
api.execute_tests = run
for host in ("http://h", "https://localhost:8080"):
    sys.argv = ["x", "check_server", host, "SubmodelServiceSpecification/SSP-002", "--no-verify"]
    try: m.main()
    except SystemExit: pass
assert seen == [False, False], seen
''', needs="--no-verify together with a server on https://localhost", breaks="certificates are verified although that was disabled"),
dict(id="spec-limit", property="C18", file=A + "file.py",
     old="        spec_rels = aasx_origin.sub_rels_by_type(TYPE_AASX_SPEC)\n", new="        spec_rels = aasx_origin.sub_rels_by_type(TYPE_AASX_SPEC)[:100]\n",
     demo=H + PKG + '''
for n in (1, 99, 130):
    assert file.check_aasx_file(package(["{}"] * n)).ok()
    assert not file.check_aasx_file(package(["{}"] * (n - 1) + ["[1]"])).ok(), n
''', needs="an origin with more than 100 specification documents", breaks="documents after the hundredth are not checked"),
dict(id="catch-without-arguments", property="C02", file=A + "result.py",
     old='f"Internal error: {exc_val}"', new='f"Internal error: {exc_val.args[0]}"',
     demo=H + '''
from aas_test_engines.result import start, write, Level
for e in (ValueError("x"), ValueError()):
    with start("outer") as r:
        with start("inner", True): raise e
        write("after")
    assert r.level == Level.CRITICAL and len(r.sub_results) == 2
''', needs="an exception without arguments inside a catching scope", breaks="the exception that escapes the scope loses its CRITICAL result"),
dict(id="content-types-namespace", property="C17", file=A + "opc.py",
     old="            if content_types.getroot().tag != expected_tag:", new="            if not content_types.getroot().tag.endswith(\"Types\"):",
     demo=H + PKG.replace("content-types\"/>", "content-types\"/>") + '''
def with_types(text):
    src, b = zipfile.ZipFile(package(["{}"])), io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for n in src.namelist(): z.writestr(n, text if n.startswith("[") else src.read(n))
    b.seek(0)
    return file.check_aasx_file(b)
assert with_types('<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"/>').ok()
assert not with_types('<Types xmlns="http://example.com/other"/>').ok()
assert not with_types('<MyTypes/>').ok()
''', needs="a content types part whose root has another namespace or prefix", breaks="the wrong root tag is not reported"),
]
