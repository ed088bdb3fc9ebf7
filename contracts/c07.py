"""C07: the meta-model tables and the string types against AAS 3.0."""
import re
from pyvc.spec import check, assume
from pyvc.values import *
from pyvc.tds import *
from pyvc.driver import Obligation
from contracts import xsd
from contracts.support import known
from aas_test_engines import reflect as R
from aas_test_engines.test_cases.v3_0 import model as M, parse as P

# --------------------------------------------------------------- the specification
# Written from the AAS 3.0 meta-model (part 1) and IEC 61360 (part 3a).
TCHAR = r"[!#$%&'*+\-.^_`|~0-9A-Za-z]"
OCTET = r"[\x80-\xff]"
CONTENT = TCHAR + "+/" + TCHAR + r"+(?:[ \t]*;[ \t]*" + TCHAR + "+=(?:" + TCHAR + r'+|"(?:[\t !#-\[\]-~]|' + OCTET + r"|\\(?:[\t !-~]|" + OCTET + r'))*"))*'
# string type -> (shortest, longest, format)
STRINGS = {
    "Identifier": (1, 2000, None), "Label": (1, 64, None), "NameType": (1, 128, None), "MessageTopic": (1, 255, None), "ValueTypeIec61360": (1, 2000, None),
    "NonEmpty": (1, None, None), "ValueDataType": (0, None, None), "Version": (1, 4, "number"), "ContentType": (1, 100, "content"), "Path": (1, 2000, "uri"),
    "DateTime": (1, None, "dateTime"), "Duration": (1, None, "duration"), "Blob": (0, None, "base64"),
}
XML = "[\\x09\\x0a\\x0d\\x20-\\ud7ff\\ue000-\\ufffd\\U00010000-\\U0010ffff]*"


def in_format(f, s):
    if f is None: return True
    if f == "number": return re.fullmatch("0|[1-9][0-9]*", s) is not None
    if f == "content": return re.fullmatch(CONTENT, s) is not None
    if f == "uri": return xsd.any_uri(s)
    if f == "dateTime": return xsd.date_time(s)
    if f == "duration": return xsd.duration(s)
    return xsd.base64bin(s)


def in_type(name, s):
    lo, hi, f = STRINGS[name]
    return len(s) >= lo and (hi is None or len(s) <= hi) and re.fullmatch(XML, s) is not None and in_format(f, s)


ENUMS = {
    "AssetKind": "Instance NotApplicable Type",
    "DataTypeDefXsd": " ".join("xs:" + t for t in "anyURI base64Binary boolean byte date dateTime decimal double duration float gDay gMonth gMonthDay gYear gYearMonth hexBinary int integer long negativeInteger nonNegativeInteger nonPositiveInteger positiveInteger short string time unsignedByte unsignedInt unsignedLong unsignedShort".split()),
    "DataTypeIec61360": "BLOB BOOLEAN DATE FILE HTML INTEGER_COUNT INTEGER_CURRENCY INTEGER_MEASURE IRDI IRI RATIONAL RATIONAL_MEASURE REAL_COUNT REAL_CURRENCY REAL_MEASURE STRING STRING_TRANSLATABLE TIME TIMESTAMP",
    "Direction": "input output", "StateOfEvent": "off on", "EntityType": "CoManagedEntity SelfManagedEntity", "ModellingKind": "Instance Template",
    "QualifierKind": "ConceptQualifier TemplateQualifier ValueQualifier", "ReferenceType": "ExternalReference ModelReference",
    "KeyType": "AnnotatedRelationshipElement AssetAdministrationShell BasicEventElement Blob Capability ConceptDescription DataElement Entity EventElement File FragmentReference GlobalReference Identifiable MultiLanguageProperty Operation Property Range Referable ReferenceElement RelationshipElement Submodel SubmodelElement SubmodelElementCollection SubmodelElementList",
}
# language string type -> longest text
LANG = {"MultiLanguageNameType": 128, "MultiLanguageTextType": 1023, "DefinitionTypeIec61360": 1023, "PreferredNameTypeIec61360": 255, "ShortNameTypeIec61360": 18}
# attribute: "name[!]: [+]type", ! required, + a list that is not empty
DS = "embeddedDataSpecifications: +EmbeddedDataSpecification"
SEM = "semanticId: Reference; supplementalSemanticIds: +Reference"
QUAL = "qualifiers: +Qualifier"
REF = "extensions: +Extension; category: 'NameType; idShort: 'NameType; displayName: +MultiLanguageNameType; description: +MultiLanguageTextType"
IDENT = REF + "; administration: AdministrativeInformation; id!: 'Identifier"
SME = "; ".join([REF, SEM, QUAL, DS])
LS = "language!: text; text!: text"
CLASSES = {
    "Environment": "assetAdministrationShells: +AssetAdministrationShell; submodels: +Submodel; conceptDescriptions: +ConceptDescription",
    "AssetAdministrationShell": IDENT + "; " + DS + "; derivedFrom: Reference; assetInformation!: AssetInformation; submodels: +Reference",
    "Submodel": "; ".join([IDENT, SEM, QUAL, DS]) + "; kind: ModellingKind; submodelElements: +SubmodelElement",
    "ConceptDescription": IDENT + "; " + DS + "; isCaseOf: +Reference",
    "AssetInformation": "assetKind!: AssetKind; globalAssetId: 'Identifier; specificAssetIds: +SpecificAssetId; assetType: 'Identifier; defaultThumbnail: Resource",
    "Resource": "path!: 'Path; contentType: 'ContentType",
    "SpecificAssetId": SEM + "; name!: 'Label; value!: 'Identifier; externalSubjectId: Reference",
    "AdministrativeInformation": DS + "; version: 'Version; revision: 'Version; creator: Reference; templateId: 'Identifier",
    "Qualifier": SEM + "; kind: QualifierKind; type!: 'NameType; valueType!: DataTypeDefXsd; value: 'ValueDataType; valueId: Reference",
    "Extension": SEM + "; name!: 'NameType; valueType: DataTypeDefXsd; value: 'ValueDataType; refersTo: +Reference",
    "Reference": "type!: ReferenceType; referredSemanticId: Reference; keys!: +Key",
    "Key": "type!: KeyType; value!: 'Identifier",
    "EmbeddedDataSpecification": "dataSpecification!: Reference; dataSpecificationContent!: DataSpecificationContent",
    "DataSpecificationContent": "",
    "DataSpecificationIec61360": "preferredName!: +PreferredNameTypeIec61360; shortName: +ShortNameTypeIec61360; unit: 'NonEmpty; unitId: Reference; sourceOfDefinition: 'NonEmpty; symbol: 'NonEmpty; dataType: DataTypeIec61360; definition: +DefinitionTypeIec61360; valueFormat: 'NonEmpty; valueList: ValueList; value: 'ValueTypeIec61360; levelType: LevelType",
    "LevelType": "min!: bool; nom!: bool; typ!: bool; max!: bool",
    "ValueList": "valueReferencePairs!: +ValueReferencePair",
    "ValueReferencePair": "value!: 'ValueTypeIec61360; valueId!: Reference",
    "SubmodelElement": SME, "DataElement": SME, "EventElement": SME, "Capability": SME,
    "RelationshipElement": SME + "; first!: Reference; second!: Reference",
    "AnnotatedRelationshipElement": SME + "; first!: Reference; second!: Reference; annotations: +DataElement",
    "BasicEventElement": SME + "; observed!: Reference; direction!: Direction; state!: StateOfEvent; messageTopic: 'MessageTopic; messageBroker: Reference; lastUpdate: 'DateTime; minInterval: 'Duration; maxInterval: 'Duration",
    "Blob": SME + "; value: 'Blob; contentType!: 'ContentType",
    "Entity": SME + "; statements: +SubmodelElement; entityType!: EntityType; globalAssetId: 'Identifier; specificAssetIds: +SpecificAssetId",
    "File": SME + "; value: 'Path; contentType!: 'ContentType",
    "MultiLanguageProperty": SME + "; value: +MultiLanguageTextType; valueId: Reference",
    "Operation": SME + "; inputVariables: +OperationVariable; outputVariables: +OperationVariable; inoutputVariables: +OperationVariable",
    "OperationVariable": "value!: SubmodelElement",
    "Property": SME + "; valueType!: DataTypeDefXsd; value: 'ValueDataType; valueId: Reference",
    "Range": SME + "; valueType!: DataTypeDefXsd; min: 'ValueDataType; max: 'ValueDataType",
    "ReferenceElement": SME + "; value: Reference",
    "SubmodelElementCollection": SME + "; value: +SubmodelElement",
    "SubmodelElementList": SME + "; orderRelevant: bool; semanticIdListElement: Reference; typeValueListElement!: KeyType; valueTypeListElement: DataTypeDefXsd; value: +SubmodelElement",
    **{k: LS for k in LANG},
}
DATA_ELEMENTS = "Blob File MultiLanguageProperty Property Range ReferenceElement"
ABSTRACT = {
    "DataSpecificationContent": "DataSpecificationIec61360",
    "DataElement": DATA_ELEMENTS,
    "SubmodelElement": DATA_ELEMENTS + " AnnotatedRelationshipElement BasicEventElement Capability Entity Operation RelationshipElement SubmodelElementCollection SubmodelElementList",
}
MODEL_TYPED = {"AssetAdministrationShell", "Submodel", "ConceptDescription"}


# ------------------------------------------------------------------- reading the code
def table(cls=None):
    """the reflected type and every type reachable from it"""
    t, _ = R.reflect(cls or M.Environment, M.__dict__, M.__dict__)
    seen, todo = {}, [t]
    while todo:
        t = todo.pop()
        if id(t) in seen: continue
        seen[id(t)] = t
        if isinstance(t, R.ClassType): todo += [f.type for f in t.attrs] + list(t.subclasses)
        elif isinstance(t, R.ListType): todo.append(t.item_type)
    return list(seen.values())


def class_types(): return {t.cls.__name__: t for t in table() if isinstance(t, R.ClassType)}


def attributes(name):
    """[(attribute, required, list, type)] of the specification"""
    out = []
    for part in filter(None, CLASSES[name].split("; ")):
        a, t = part.split(": ")
        out.append((a.rstrip("!"), a.endswith("!"), t.startswith("+"), t.lstrip("+")))
    return out


def json_name(f): return f.force_name or P.to_lower_camel_case(f.name)


def same_type(t, spec):
    if spec == "text": return isinstance(t, R.StringType)
    if spec == "bool": return isinstance(t, R.BoolType)
    if spec.startswith("'"): return isinstance(t, R.StringFormattedValueType)
    if spec in ENUMS: return isinstance(t, R.EnumType) and sorted(x.value for x in t.cls) == sorted(ENUMS[spec].split())
    return isinstance(t, R.ClassType) and t.cls.__name__ == spec


def h_classes():
    ct = class_types()
    check("every class of the specification is reachable and no other", set(ct) | {"EventElement"} == set(CLASSES))
    for n in CLASSES:
        if n not in ct: continue
        got = {json_name(f): f for f in ct[n].attrs}
        spec = attributes(n)
        check(f"{n}: attribute names", len(got) == len(ct[n].attrs) and set(got) == {a for a, *_ in spec})
        for a, req, lst, ty in spec:
            f = got[a]
            check(f"{n}.{a}: required or not", bool(f.required) == req)
            check(f"{n}.{a}: list or not", isinstance(f.type, R.ListType) == lst)
            if lst: check(f"{n}.{a}: not empty", not f.type.allow_empty)
            check(f"{n}.{a}: type", same_type(f.type.item_type if lst else f.type, ty))


def h_literals():
    """an enumeration accepts its literals and nothing else"""
    from aas_test_engines.reflect import EnumType
    seen = {}
    for t in table():
        if isinstance(t, EnumType): seen[t.cls] = t
    for cls, t in seen.items():
        lits = [x.value for x in cls]
        for s in {y for x in cls for v in (x.value, x.name) for y in (v, v.upper(), v.lower(), v + " ", " " + v, v + "\n", v[:-1], v.replace(":", ""), v[3:], v.title())} | {"", "x", "None"}:
            v, ok = None, True
            try: v = t.construct(s)
            except ValueError: ok = False
            check(f"{cls.__name__}: exactly the literals", ok == (s in lits))
            if ok: check(f"{cls.__name__}: the value of the literal", v.value == s)


def h_subclasses():
    ct = class_types()
    for n, t in ct.items():
        want = set(ABSTRACT.get(n, n).split())
        got = {s.cls.__name__ for s in t.subclasses} | (set() if t.is_abstract() else {n})
        if n in ABSTRACT:
            check(f"{n} is abstract", t.is_abstract())
            if known("C07-event-element"): got -= {"EventElement"}
            check(f"{n}: the allowed subclasses", got == want and len(t.subclasses) == len({s.cls.__name__ for s in t.subclasses}))
        elif n not in ("RelationshipElement", "EventElement"):
            check(f"{n}: no subclasses", got == want)
    for n, t in ct.items():
        if n in MODEL_TYPED: check(f"{n} needs its model type", P.has_requires_model_type(t.cls))


def h_roots():
    """the same class yields the same table wherever the reflection starts"""
    def dump(t):
        return sorted((x.cls.__name__, tuple(sorted((json_name(f), bool(f.required), type(f.type).__name__) for f in x.attrs)),
                       tuple(sorted(s.cls.__name__ for s in x.subclasses))) for x in t if isinstance(x, R.ClassType))
    whole = {x[0]: x for x in dump(table())}
    for root in (M.AssetAdministrationShell, M.Submodel, M.SubmodelElement, M.ConceptDescription, M.Reference, M.Property, M.DataElement, M.AnnotatedRelationshipElement):
        part = dump(table(root))
        check(f"{root.__name__}: same tables", len(part) > 0 and root.__name__ in [x[0] for x in part] and all(whole[x[0]] == x for x in part))


# ----------------------------------------------------------------------- string types
def uses():
    """(reflected string type, its specified type) for every attribute"""
    out = {}
    ct = class_types()
    for n in CLASSES:
        if n not in ct: continue
        got = {json_name(f): f.type for f in ct[n].attrs}
        for a, _, lst, ty in attributes(n):
            t = got.get(a)
            if lst and t is not None: t = getattr(t, "item_type", None)
            if ty.startswith("'") and isinstance(t, R.StringFormattedValueType): out.setdefault((t.cls, ty[1:]), (t, f"{n}.{a}"))
    return [(t, ty, where) for (c, ty), (t, where) in sorted(out.items(), key=lambda x: (x[0][1], x[0][0].__name__))]


def safe_uses():
    try:
        return uses()
    except Exception:
        return []  # reported by the closed obligations


def string_harness(t, name):
    def h(s):
        ok, v = True, None
        try:
            v = t.construct(s)
        except ValueError:
            ok = False
        if name == "Blob" and known("C07-blob"): check("accepted exactly when not empty", ok == (s != "" and re.fullmatch(XML, s) is not None))
        else: check("accepted exactly when of the specified length, characters and format", ok == in_type(name, s))
        if ok: check("the value is the string", v.raw_value == s)
    return h


TOLERATE_TEXT = known("C07-language-text")


def lang_harness(cls, longest):
    names = [n for n in dir(cls) if n.startswith("check")]
    def h(o):
        bad = False
        for n in names:
            try:
                getattr(o, n)()
            except P.CheckConstraintException:
                bad = True
        want = not xsd.language_tag(o.language) or len(o.text) < 1 or len(o.text) > longest
        clean = re.fullmatch(XML, o.text) is not None
        check("reported exactly when the tag is not BCP 47, the text length is out of range or its characters are not serialisable", bad == (want or not clean) or (TOLERATE_TEXT and not clean))
    return h


# --------------------------------------------------------------------------- samples
POOL = {"number": ["0", "1", "00", "01", "10", "9999", "10000", "+1", "-1", "1\n", "１", "123", "", " 1", "0\n", "1 "],
        "content": ["text/plain", "a/b", "a/b;c=d", 'a/b; c="d e"', 'a/b; c="\\x"', "a/", "/b", "a/b;", "a/b;c", "a/b\n", 'a/b;c="é"', 'a/b;c="Ā"', "a b/c", "a/b;c=d;e=f", 'a/b;c="', 'a/b;c="\\\x7f"', "a" * 98 + "/b", "a" * 99 + "/b"],
        "uri": ["", "a", "file:///a", "a b", "%zz", "http://[::1]/", "\ue000", "a\n", "a" * 2000, "a" * 2001],
        "dateTime": ["2020-01-01T00:00:00", "2020-01-01T00:00:00Z", "2020-02-30T00:00:00Z", "2020-01-01", "", "-0001-02-29T24:00:00", "2020-01-01T00:00:00+14:00", "2020-01-01T00:00:00\n"],
        "duration": ["P1Y", "PT1S", "P", "PT", "-P1D", "P1DT", "P1Y2M3DT4H5M6.7S", "+P1D", "P1M1Y", "PT1.S", "P1Y\n"],
        "base64": ["", "AAAA", "aQ==", "x", "AA= ="], None: []}


def gen_string(name):
    lo, hi, f = STRINGS[name]
    def g_(g):
        r = g.r
        x = r.random()
        pool = POOL[f] + ["", "a", "\x00", "a\x00", "\x0b", "\t\n\r ", "\ud800", "\ufffe", "\uffff", "\ufffd", "\U0010ffff", "é", "a\ud7ff", "\x7f", "\x1f", "\ue000", "\udfff", "\U00010000"]
        if hi is not None and x < 0.4: return ["a" * (hi + r.choice([-1, 0, 1, 1, 2])) if r.random() < 0.7 else r.choice("1a\x00\U0001f600\n") * (hi + r.choice([-1, 0, 1]))]
        if x < 0.8: return [r.choice(pool)]
        s = r.choice(pool)
        i = r.randrange(len(s) + 1)
        return [s[:i] + r.choice(pool) + s[i + r.randint(0, 1):]]
    return g_


def gen_lang(cls, longest):
    from contracts.c15 import LANGS
    def g_(g):
        o = object.__new__(cls)
        o.language = g.r.choice(LANGS)
        o.text = "x" * g.r.choice([0, 1, longest - 1, longest, longest + 1]) if g.r.random() < 0.8 else g.r.choice("aé\U0001f600\x00") * g.r.randint(0, 2 * longest)
        return [o]
    return g_


def contracts_of_validators(eng):
    """callers of the verified validators see their contracts (C14, C15)"""
    for n, spec in (("is_any_uri", xsd.any_uri), ("is_xs_date_time", xsd.date_time), ("is_bcp_lang_string", xsd.language_tag)):
        for mod in (M,):
            f = getattr(mod, n, None)
            if f is not None: eng.models[f] = lambda e, a, k, spec=spec: e.call(spec, [a[0]], {})


O = Obligation
MODULES = ["aas_test_engines.reflect", "aas_test_engines.test_cases.v3_0.model"]
RF = ["aas_test_engines.reflect:" + n for n in ("reflect", "_reflect", "_reflect_unsafe", "_reflect_class", "_reflect_list", "_collect_subclasses", "_unwrap_optional", "_unwrap_forward_ref", "is_abstract", "SymbolTable._resolve")]
USES = {"c15": ["is_bcp_lang_string"], "c27": ["reflect and lookup", "meta-model", "_reflect_class", "_collect", "_unwrap", "_reflect_list"]}  # contracts of callees this property rests on

OBLIGATIONS = [
    O("classes and attributes", h_classes, mode="closed", functions=RF),
    O("subclasses", h_subclasses, mode="closed", functions=RF),
    O("enumerations", h_literals, mode="closed", functions=["aas_test_engines.reflect:EnumType.construct"]),
    O("same tables from every root", h_roots, mode="closed", functions=RF),
]
OBLIGATIONS += [O(f"{t.cls.__name__} as {name} ({where})", string_harness(t, name), [("s", TStr())], gen=gen_string(name), setup=contracts_of_validators) for t, name, where in safe_uses()]
OBLIGATIONS += [O(f"language strings: {n}", lang_harness(getattr(M, n), m), [("o", TObj(getattr(M, n)))], gen=gen_lang(getattr(M, n), m), setup=contracts_of_validators)
                for n, m in sorted(LANG.items()) if hasattr(M, n)]
ASSUMPTIONS = ["the AAS 3.0 tables in contracts/c07.py were written from memory of the specification (it is not available offline)",
               "xs:dateTime is taken for lastUpdate, as the repository's acceptance tests decide", "is_any_uri, is_xs_date_time and is_bcp_lang_string by their contracts (C14, C15)",
               "CPython's re module implements the language of its patterns (automata are built from its own parse trees)"]


# -------------------------------------------------------------------------- findings
def f_event():
    t = class_types()["SubmodelElement"]
    return any(s.cls.__name__ == "EventElement" for s in t.subclasses)


def f_blob():
    t = [t for t, n, _ in safe_uses() if n == "Blob"][0]
    t.construct("not base64!")
    try:
        t.construct("")
    except ValueError:
        return True
    return False


def f_text():
    o = M.MultiLanguageTextType("de", "\x00")
    o.check_text()
    o.check_language()
    return True


FINDINGS = {"C07-language-text": f_text, "C07-event-element": f_event, "C07-blob": f_blob}
