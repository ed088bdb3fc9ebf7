"""C11: IEC 61360 constraints, value types and data specification references."""
from pyvc.spec import check, assume
from pyvc.values import *
from pyvc.tds import TObj, TConst
from pyvc.driver import Obligation
from contracts import xsd
from contracts.support import violated, known
from contracts.c09 import broken, T, blank

from aas_test_engines import data_types as D
from aas_test_engines.result import Level
from aas_test_engines.test_cases.v3_0 import model as M
from aas_test_engines.test_cases.v3_0.parse import CheckConstraintException

DATA = {
    "AASc-3a-004": (("PROPERTY", "VALUE"),
                    ("DATE", "STRING", "STRING_TRANSLATABLE", "INTEGER_MEASURE", "INTEGER_COUNT", "INTEGER_CURRENCY", "REAL_MEASURE",
                     "REAL_COUNT", "REAL_CURRENCY", "BOOLEAN", "RATIONAL", "RATIONAL_MEASURE", "TIME", "TIMESTAMP")),
    "AASc-3a-005": (("REFERENCE",), ("STRING", "IRI", "IRDI")),
    "AASc-3a-006": (("DOCUMENT",), ("FILE", "BLOB", "HTML")),
}
UNITS = ("INTEGER_MEASURE", "REAL_MEASURE", "RATIONAL_MEASURE", "INTEGER_CURRENCY", "REAL_CURRENCY")
EXPECTED = "https://admin-shell.io/DataSpecificationTemplates/DataSpecificationIec61360/3"


def english(names): return any(xsd.english_tag(n.language) for n in names)


def h002(o): broken(o, "check_aasc_3a_002", "AASc-3a-002", not english(o.preferred_name))


def h_category(cid):
    cats, types = DATA[cid]
    def wrong(ds):
        c = ds.data_specification_content
        return isinstance(c, M.DataSpecificationIec61360) and (c.data_type is None or c.data_type.value not in types)
    def iec(ds): return isinstance(ds.data_specification_content, M.DataSpecificationIec61360)
    def h(o):
        applies = o.category is not None and o.category.raw_value in cats and o.embedded_data_specifications is not None
        expected = applies and any(wrong(ds) for ds in o.embedded_data_specifications)
        used = applies and any(iec(ds) for ds in o.embedded_data_specifications)
        r = violated(o, "check_" + cid.replace("-", "_").lower(), cid)
        check(f"{cid} reported exactly when broken", r == expected or (KF_TYPES and used and not expected))
    return h


KF_TYPES = known("C11-data-type-literals")


def f_types():
    ds = blank(M.EmbeddedDataSpecification, data_specification_content=blank(M.DataSpecificationIec61360, data_type=M.DataTypeIec61360.STRING))
    o = blank(M.ConceptDescription, category=blank(M.NameTypeString, raw_value="PROPERTY"), embedded_data_specifications=[ds])
    return violated(o, "check_aasc_3a_004", "AASc-3a-004")


FINDINGS = {"C11-data-type-literals": f_types}


def h007(o):
    broken(o, "check_aasc_3a_007", "AASc-3a-007",
           o.category is not None and o.category.raw_value == "QUALIFIER_TYPE" and o.embedded_data_specifications is not None
           and any(isinstance(ds.data_specification_content, M.DataSpecificationIec61360) and ds.data_specification_content.data_type is None
                   for ds in o.embedded_data_specifications))


def undefined(c):
    return (isinstance(c, M.DataSpecificationIec61360) and c.value is None
            and (c.definition is None or not english(c.definition)))


def h008(o):
    broken(o, "check_aasc_3a_008", "AASc-3a-008",
           o.embedded_data_specifications is not None
           and any(undefined(ds.data_specification_content) for ds in o.embedded_data_specifications))


def h009(o):
    broken(o, "check_aasc_3a_009", "AASc-3a-009",
           o.data_type is not None and o.data_type.value in UNITS and o.unit is None and o.unit_id is None)


def h010(o): broken(o, "check_aasc_3a_010", "AASc-3a-010", o.value is not None and o.value_list is not None)


def h_reference(o):
    """a wrong data specification reference is a warning, nothing worse"""
    level = None
    try:
        o.check_reference()
    except CheckConstraintException as e:
        level = e.level
    keys = o.data_specification.keys
    good = len(keys) == 1 and keys[0].value.raw_value == EXPECTED
    check("a right reference passes", not good or level is None)
    check("a wrong reference yields a warning", good or level == Level.WARNING)


def h_level(o):
    """all other violations are errors"""
    try:
        o.check_aasc_3a_010()
    except CheckConstraintException as e:
        check("violations are errors by default", e.level == Level.ERROR)


def fits(value_type, text): return xsd.accepts(value_type.value, text)


def h_property(o):
    broken(o, "check_value_type", "is not a", o.value is not None and not fits(o.value_type, o.value.raw_value))
def h_extension(o):
    broken(o, "check_value_type", "is not a", o.value is not None and o.value_type is not None and not fits(o.value_type, o.value.raw_value))
def h_min(o): broken(o, "check_value_type_min", "is not a", o.min is not None and not fits(o.value_type, o.min.raw_value))
def h_max(o): broken(o, "check_value_type_max", "is not a", o.max is not None and not fits(o.value_type, o.max.raw_value))


def validator_contracts(eng):
    """each validator by its contract (proved under C13, C14, C15)"""
    def pred(e, t, s):
        return e.str_pred("accepts " + t, s, lambda x, t=t: xsd.accepts(t, x))
    def h_fits(e, a, k):
        vt, s = e.resolve(a[0]), e.resolve(a[1])
        for t in D.DataTypeDefXsd:
            if e.branch(e.eq(vt, t)): return e.to_bool_value(pred(e, t.value, s))
        return False
    eng.models[fits] = h_fits
    fs = {}
    for t, f in D.validators.items(): fs.setdefault(f, []).append(t)
    for f, ts in fs.items():
        if len(ts) > 1: continue
        eng.models[f] = lambda e, a, k, t=ts[0]: e.to_bool_value(pred(e, t.value, e.resolve(a[0])))


VALUES = ["", "0", "1", "-1", "true", "false", "abc", "1.5", "255", "256", "-129", "2020-01-01", "2020-02-30", "12:00:00", "2020-01-01T00:00:00Z", "P1D", "P", "INF", "ab",
          "0g", "YQ==", "a b", "--12", "---31", "--02-30", "2020", "2020-13", "http://x y", "4294967296", "é"]


def gen_value(cls, fields=("value",)):
    def gen(g):
        o = g.gen(TObj(cls, overrides={"id_short_path": TConst(None)}))
        for f in fields:
            if g.r.random() < 0.85:
                v = M.ValueDataType.__new__(M.ValueDataType)
                v.raw_value = g.r.choice(VALUES)
                setattr(o, f, v)
        return [o]
    return gen


MODULES = ["aas_test_engines.test_cases.v3_0.model"]
O = Obligation
TDS = TObj(M.DataSpecificationIec61360)
USES = {"c13": None, "c14": None, "c15": None}  # contracts of callees this property rests on

OBLIGATIONS = [
    O("DataSpecificationIec61360.check_aasc_3a_002", h002, [("o", TDS)]),
    O("ConceptDescription.check_aasc_3a_004", h_category("AASc-3a-004"), [("o", TObj(M.ConceptDescription))]),
    O("ConceptDescription.check_aasc_3a_005", h_category("AASc-3a-005"), [("o", TObj(M.ConceptDescription))]),
    O("ConceptDescription.check_aasc_3a_006", h_category("AASc-3a-006"), [("o", TObj(M.ConceptDescription))]),
    O("ConceptDescription.check_aasc_3a_007", h007, [("o", TObj(M.ConceptDescription))]),
    O("ConceptDescription.check_aasc_3a_008", h008, [("o", TObj(M.ConceptDescription))]),
    O("DataSpecificationIec61360.check_aasc_3a_009", h009, [("o", TDS)]),
    O("DataSpecificationIec61360.check_aasc_3a_010", h010, [("o", TDS)]),
    O("EmbeddedDataSpecification.check_reference", h_reference, [("o", TObj(M.EmbeddedDataSpecification))]),
    O("violations are errors", h_level, [("o", TDS)]),
    O("Property.check_value_type", h_property, [("o", T(M.Property))], setup=validator_contracts, gen=gen_value(M.Property)),
    O("Qualifier.check_value_type", h_property, [("o", TObj(M.Qualifier))], setup=validator_contracts, gen=gen_value(M.Qualifier)),
    O("Extension.check_value_type", h_extension, [("o", TObj(M.Extension))], setup=validator_contracts, gen=gen_value(M.Extension)),
    O("Range.check_value_type_min", h_min, [("o", T(M.Range))], setup=validator_contracts, gen=gen_value(M.Range, ("min", "max"))),
    O("Range.check_value_type_max", h_max, [("o", T(M.Range))], setup=validator_contracts, gen=gen_value(M.Range, ("min", "max"))),
]
ASSUMPTIONS = ["the parser delivers objects of the declared attribute types (C05, C07)",
               "the value-type validators meet their contracts (proved under C13, C14, C15)"]
