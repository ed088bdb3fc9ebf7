H = "import sys\n"
A = "aas_test_engines/"
BUGS = [
dict(id="subclass-of-concrete", property="C27", file=A + "reflect.py",
     old='''        yield from _collect_subclasses(i)''', new='''        if is_abstract(i) or not is_abstract(cls):
            yield from _collect_subclasses(i)''',
     demo=H + '''
from dataclasses import dataclass
from aas_test_engines.reflect import abstract, reflect
@abstract
@dataclass
class Base: pass
@dataclass
class Mid(Base): pass
@dataclass
class Leaf(Mid): pass
t, _ = reflect(Base)
assert {s.cls for s in t.subclasses} == {Mid, Leaf}
''', needs="a concrete subclass of a concrete subclass of an abstract class", breaks="the deeper subclass is not listed"),
dict(id="default-means-optional", property="C27", file=A + "reflect.py",
     old='''        required, field_type = _unwrap_optional(field.type)
''', new='''        required, field_type = _unwrap_optional(field.type)
        required = required and field.default in (None, MISSING)
''', edits=[(A + "reflect.py", '''        required, field_type = _unwrap_optional(field.type)
''', '''        required, field_type = _unwrap_optional(field.type)
        required = required and field.default in (None, MISSING)
'''), (A + "reflect.py", "from dataclasses import is_dataclass, fields", "from dataclasses import is_dataclass, fields, MISSING")],
     demo=H + '''
from dataclasses import dataclass
from typing import Optional
from aas_test_engines.reflect import reflect
@dataclass
class X:
    a: str
    b: Optional[str] = None
    c: str = "x"
t, _ = reflect(X)
assert [(a.name, a.required) for a in t.attrs] == [("a", True), ("b", False), ("c", True)]
''', needs="an attribute with a default that is not annotated optional", breaks="it is reflected as optional"),
dict(id="function-short-names", property="C27", file=A + "reflect.py",
     old='''        if key in ["return"]:''', new='''        if key in "return":''',
     demo=H + '''
from aas_test_engines.reflect import reflect_function
def f(r: str, n: int) -> str: ...
assert [a.name for a in reflect_function(f).args] == ["r", "n"]
''', needs="an argument whose name is a substring of 'return'", breaks="the argument is omitted"),
dict(id="lookup-ignores-case", property="C27", file=A + "reflect.py",
     old='''name.endswith(f".{type_name}'>")]''', new='''name.lower().endswith(f".{type_name}'>".lower())]''',
     demo=H + '''
from dataclasses import dataclass
from aas_test_engines.reflect import reflect
@dataclass
class Key: pass
_, table = reflect(Key)
table.lookup
import types
k = [n for n in table.symbols][0]
table.symbols = {"<class 'm.Key'>": table.symbols[k]}
assert table.lookup("Key") is not None
try: table.lookup("KEY")
except ValueError: sys.exit(0)
sys.exit("a class of another name found")
''', needs="a name that differs from a class only by case", breaks="lookup succeeds for a name no class has"),
dict(id="enum-member-name", property="C05", file=A + "reflect.py",
     old='''class EnumType(TypeBase):
    def __init__(self, cls):
        self.cls = cls

    def construct(self, args):
        return self.cls(args)''', new='''class EnumType(TypeBase):
    def __init__(self, cls):
        self.cls = cls

    def construct(self, args):
        return self.cls.__members__.get(args) or self.cls(args)''',
     demo=H + '''
from aas_test_engines.file import check_json_data
def env(v): return {"submodels": [{"modelType": "Submodel", "id": "x", "submodelElements": [{"modelType": "Property", "idShort": "p", "valueType": v}]}]}
assert check_json_data(env("xs:string")).ok()
assert not check_json_data(env("string")).ok()
''', needs="an enumeration literal written as the Python member name", breaks="a text that is no literal is accepted"),
dict(id="string-equality-blanks", property="C08", file=A + "reflect.py",
     old='''        return self.raw_value == other.raw_value''', new='''        return self.raw_value.strip() == other.raw_value.strip()''',
     demo=H + '''
from aas_test_engines.file import check_json_data
from aas_test_engines.test_cases.v3_0 import json_to_obj
from aas_test_engines.test_cases.v3_0.model import Reference
def ref(v):
    r, o = json_to_obj({"submodels": [{"modelType": "Submodel", "id": "x", "semanticId": {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": v}]}}]}, "Environment")
    return o.submodels[0].semantic_id
assert ref("a") == ref("a") and ref("a") != ref("b") and ref("a") != ref("a ")
''', needs="two references whose key values differ by surrounding blanks only", breaks="they compare equal"),
dict(id="append-once", property="C12", file=A + "result.py",
     old='''    def append(self, result: "AasTestResult"):
        self.sub_results.append(result)
''', new='''    def append(self, result: "AasTestResult"):
        if not (self.sub_results and self.sub_results[-1].message == result.message and result.level != Level.INFO):
            self.sub_results.append(result)
''',
     demo=H + '''
from aas_test_engines.result import AasTestResult, Level
r = AasTestResult("r")
a, b = AasTestResult("same", Level.ERROR), AasTestResult("same", Level.ERROR)
b.append(AasTestResult("detail"))
r.append(a); r.append(b)
assert r.sub_results == [a, b]
''', needs="two violations in a row with the same message", breaks="the second violation is not recorded"),
dict(id="abort-keeps-info", property="C22", file=A + "result.py",
     old='''        elif isinstance(exc_val, ResultException):
            self.result.append(exc_val.result)
''', new='''        elif isinstance(exc_val, ResultException):
            if exc_val.result.level != Level.WARNING or self.catch_all_exceptions:
                self.result.append(exc_val.result)
''',
     demo=H + '''
from aas_test_engines.result import AasTestResult, Level, start, abort
with start("x") as s:
    abort(AasTestResult("w", Level.WARNING))
assert len(s.sub_results) == 1 and s.level == Level.WARNING
''', needs="an abort with a warning in an ordinary scope", breaks="the aborting result is not recorded"),
dict(id="function-optional-order", property="C24", file=A + "reflect.py",
     old='''    for key, value in fn.__annotations__.items():
        if key in ["return"]:''', new='''    for key, value in sorted(fn.__annotations__.items(), key=lambda kv: not _unwrap_optional(kv[1])[0]):
        if key in ["return"]:''',
     demo=H + '''
from typing import Optional
from aas_test_engines.reflect import reflect_function
def f(a: Optional[int], b: str, c: bool) -> None: ...
assert [(a.name, a.required) for a in reflect_function(f).args] == [("a", False), ("b", True), ("c", True)]
''', needs="a signature with an optional argument before a required one", breaks="arguments are attacked in another order than declared"),
dict(id="retry-head", property="C21", file=A + "http.py",
     old='''        return requests.request(
            url=host + url,''', new='''        if self.prefixes and request.method.lower() == "delete":
            # wake up the route first
            requests.request(method="head", url=host + url, verify=self.verify)
        return requests.request(
            url=host + url,''',
     demo=H + '''
from unittest import mock
import requests
from aas_test_engines.http import HttpClient, Request
with mock.patch("requests.request") as m:
    HttpClient("http://h").send(Request("/a", method="delete"))
    assert m.call_count == 1
    HttpClient("http://h").descend("/p").send(Request("/a", method="delete"))
    assert m.call_count == 2
''', needs="a DELETE request of a client with a path prefix", breaks="two requests are sent"),
dict(id="september", property="C11", file=A + "data_types.py",
     edits=[(A + "data_types.py", '''_DAYS_IN_MONTH: Dict[int, int] = {
    1: 31,
    2: 29,
    3: 31,
    4: 30,
    5: 31,
    6: 30,
    7: 31,
    8: 31,
    9: 30,''', '''_DAYS_IN_MONTH: Dict[int, int] = {
    1: 31,
    2: 29,
    3: 31,
    4: 30,
    5: 31,
    6: 30,
    7: 31,
    8: 31,
    9: 31,''')],
     demo=H + '''
from aas_test_engines.file import check_json_data
def env(v): return {"submodels": [{"modelType": "Submodel", "id": "x", "submodelElements": [{"modelType": "Property", "idShort": "p", "valueType": "xs:gMonthDay", "value": v}]}]}
assert check_json_data(env("--09-30")).ok()
assert not check_json_data(env("--09-31")).ok()
''', needs="the 31st of September", breaks="a value outside the lexical space is accepted"),
dict(id="filter-blank-padding", property="C20", file=A + "config.py",
     old='''self.includes = [re.compile(fnmatch.translate(i)) for''', new='''self.includes = [re.compile(fnmatch.translate(i.strip())) for''',
     demo=H + '''
from aas_test_engines.config import TestCaseFilter
assert TestCaseFilter("a:b").selects("b")
assert not TestCaseFilter("a: b").selects("b") and TestCaseFilter("a: b").selects(" b")
''', needs="an include pattern with surrounding blanks", breaks="it matches names without the blanks"),
dict(id="pattern-end", property="C07", file=A + "reflect.py",
     old='''            if re.fullmatch(self.pattern, raw_value) is None:''', new='''            if re.match(f"(?:{self.pattern})$", raw_value) is None:''',
     demo=H + '''
import re
from aas_test_engines.reflect import StringFormattedValue
class V(StringFormattedValue):
    pattern = "[0-9]+"
V("12")
for bad in ("12\\n", "x"):
    try: V(bad)
    except ValueError: continue
    sys.exit("accepted " + repr(bad))
''', needs="a constrained string with a trailing line break", breaks="it matches the pattern"),
]
