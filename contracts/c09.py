"""C09: naming, asset, qualifier and reference-kind constraints."""
import re
from pyvc.spec import check, assume
from pyvc.tds import TObj, TConst, TOpt, TList, TStr
from pyvc.driver import Obligation
from contracts.support import violated, known

from aas_test_engines.test_cases.v3_0 import model as M


def broken(o, method, cid, expected):
    check(f"{cid} reported exactly when broken", violated(o, method, cid) == expected)


# ------------------------------------------------------------------ AASd-002
def h002(o):
    broken(o, "check_constraint_aasd_002", "AASd-002",
           o.id_short is not None and re.fullmatch(r"[a-zA-Z][a-zA-Z0-9_]*", o.id_short.raw_value) is None)


def h002_text(s):
    o = M.Capability.__new__(M.Capability)
    o.id_short = M.NameTypeString.__new__(M.NameTypeString)
    o.id_short.raw_value = s
    ok = s != "" and s[0] in LETTERS and all(c in WORD for c in s)
    check("AASd-002 pattern", violated(o, "check_constraint_aasd_002", "AASd-002") == (not ok))


LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
WORD = LETTERS + "0123456789_"


# ------------------------------------------------------------------ AASd-005
def h005(o):
    broken(o, "check_constraint_aasd_005", "AASd-005", o.revision is not None and o.version is None)


# ------------------------------------------------------------------ AASd-014
def h014(o):
    some = o.global_asset_id is not None or o.specific_asset_ids is not None
    selfm = o.entity_type.value == "SelfManagedEntity"
    broken(o, "check_aasd_014", "AASd-014", (selfm and not some) or (not selfm and some))


# -------------------------------------------------------------- AASd-022/117
def names(els):
    return [e.id_short.raw_value for e in els if e.id_short is not None]


def duplicates(els):
    if els is None: return False
    return any(any(els[j].id_short is not None and els[i].id_short is not None
                   and els[j].id_short.raw_value == els[i].id_short.raw_value for j in range(0, i)) for i in range(len(els)))


def nameless(els):
    return els is not None and any(e.id_short is None for e in els)


def h022_sm(o): broken(o, "check_aasd_022", "AASd-022", duplicates(o.submodel_elements))
def h022_smc(o): broken(o, "check_aasd_022", "AASd-022", duplicates(o.value))
def h117_sm(o): broken(o, "check_aasd_117", "AASd-117", nameless(o.submodel_elements))
def h117_smc(o): broken(o, "check_aasd_117", "AASd-117", nameless(o.value))
def h117_ann(o): broken(o, "check_aasd_117", "AASd-117", nameless(o.annotations))
def h117_ent(o): broken(o, "check_aad_117", "AASd-117", nameless(o.statements))

KF_OPV, KF_SHELL, KF_116 = known("C09-operation-variable"), known("C09-shell-references"), known("C09-aasd-116-case")


def broken_or_crash(o, method, cid, expected, tolerated):
    """as broken(); a listed finding tolerates the AttributeError that the
    message of a real violation raises, nothing else"""
    try:
        r = violated(o, method, cid)
    except AttributeError as e:
        check(f"{cid} never crashes", tolerated and expected)
        return
    check(f"{cid} reported exactly when broken", r == expected)


def h117_opv(o): broken_or_crash(o, "check_aasd_117", "AASd-117", o.value.id_short is None, KF_OPV)


def h120(o):
    broken(o, "check_aasd_120", "AASd-120", o.value is not None and any(e.id_short is not None for e in o.value))


# ------------------------------------------------------------------ AASd-134
def h134(o):
    a = o.input_variables if o.input_variables is not None else []
    b = o.output_variables if o.output_variables is not None else []
    c = o.inoutput_variables if o.inoutput_variables is not None else []
    bad = (dup_in(a) or dup_in(b) or dup_in(c) or clash(a, b) or clash(a, c) or clash(b, c))
    broken(o, "check_aasd_134", "AASd-134", bad)


def same_name(x, y):
    return x.value.id_short is not None and y.value.id_short is not None and x.value.id_short.raw_value == y.value.id_short.raw_value


def dup_in(a):
    return any(any(same_name(a[j], a[i]) for j in range(0, i)) for i in range(len(a)))


def clash(a, b):
    return any(any(same_name(x, y) for y in b) for x in a)


# -------------------------------------------------------- assets and the rest
def h116(o):
    ids = o.specific_asset_ids
    expected = ids is not None and any(i.name.raw_value.lower() == "globalassetid" for i in ids)
    spelled = ids is not None and any(i.name.raw_value == "globalAssetId" for i in ids)
    r = violated(o, "check_aasd_116", "AASd-116")
    check("AASd-116 reported exactly when broken", r == expected or (KF_116 and expected and not spelled))


def h131(o):
    broken(o, "check_aasd_131", "AASd-131", o.global_asset_id is None and o.specific_asset_ids is None)


def h133(o):
    broken(o, "check_aasd_133", "AASd-133", o.external_subject_id is not None and o.external_subject_id.type.value != "ExternalReference")


def h118(o):
    broken(o, "check_aasd_118", "AASd-118", o.supplemental_semantic_ids is not None and o.semantic_id is None)


def h090(o):
    broken(o, "check_aasd_090", "AASd-090",
           o.category is not None and o.category.raw_value not in {"CONSTANT", "PARAMETER", "VARIABLE"})


def template_qualified(qs):
    return qs is not None and any(q.kind is not None and q.kind.value == "TemplateQualifier" for q in qs)


def is_template(o): return o.kind is not None and o.kind.value == "Template"


def h119(o):
    broken(o, "check_aasd_119", "AASd-119", template_qualified(o.qualifiers) and not is_template(o))


def h129(o):
    broken(o, "check_aasd_129", "AASd-129",
           o.submodel_elements is not None and any(template_qualified(e.qualifiers) for e in o.submodel_elements) and not is_template(o))


def notmodel(r): return r.type.value != "ModelReference"


def h_derived(o): broken_or_crash(o, "check_derived_from", "derivedFrom", o.derived_from is not None and notmodel(o.derived_from), KF_SHELL)
def h_submodels(o): broken_or_crash(o, "check_submodels", "submodels", o.submodels is not None and any(notmodel(r) for r in o.submodels), KF_SHELL)
def h_observed(o): broken(o, "check_observed", "observed", notmodel(o.observed))
def h_broker(o): broken(o, "check_message_broker", "messageBroker", o.message_broker is not None and notmodel(o.message_broker))


def blank(cls, **kw):
    o = cls.__new__(cls)
    for n in getattr(cls, "__dataclass_fields__", {}): setattr(o, n, None)
    for k, v in kw.items(): setattr(o, k, v)
    return o


def crashes(f):
    try: f()
    except AttributeError: return True
    except M.CheckConstraintException: pass
    return False


def f_116():
    n = blank(M.NameTypeString, raw_value="GlobalAssetID")
    return not violated(blank(M.AssetInformation, specific_asset_ids=[blank(M.SpecificAssetId, name=n)]), "check_aasd_116", "AASd-116")


def f_opv(): return crashes(blank(M.OperationVariable, value=blank(M.Capability)).check_aasd_117)


def f_shell():
    r = blank(M.Reference, type=M.ReferenceType.ExternalReference)
    return crashes(blank(M.AssetAdministrationShell, derived_from=r).check_derived_from) or crashes(blank(M.AssetAdministrationShell, submodels=[r]).check_submodels)


FINDINGS = {"C09-operation-variable": f_opv, "C09-shell-references": f_shell, "C09-aasd-116-case": f_116}
NOPATH = {"id_short_path": TConst(None)}


def T(c): return TObj(c, overrides=NOPATH)


TEXTS = ["a", "A1", "_a", "1a", "a_1", "a-b", "aé", "a b", "Z", "z9_", "a\n", "é", "@", "[", "`", "{", "^a", "a^", "a/", "a:"]


def gen_text(g):
    r = g.r
    if r.random() < 0.3: return [r.choice(TEXTS)]
    if r.random() < 0.3: return [chr(r.choice([r.randint(0, 0x17f), r.randint(0, 127), 0x2160, 0x661, 0x212a, 0x3bb]))]
    return ["".join(r.choice("abzAZ019_-. \nä") for _ in range(r.randint(0, 4)))]


MODULES = ["aas_test_engines.test_cases.v3_0.model"]
O = Obligation
OBLIGATIONS = [
    O("Referable.check_constraint_aasd_002", h002, [("o", T(M.SubmodelElement))]),
    O("AASd-002 pattern text", h002_text, [("s", TStr())], gen=gen_text, mode="cross"),
    O("AdministrativeInformation.check_constraint_aasd_005", h005, [("o", TObj(M.AdministrativeInformation))]),
    O("Entity.check_aasd_014", h014, [("o", T(M.Entity))]),
    O("Submodel.check_aasd_022", h022_sm, [("o", TObj(M.Submodel))]),
    O("SubmodelElementCollection.check_aasd_022", h022_smc, [("o", T(M.SubmodelElementCollection))]),
    O("Submodel.check_aasd_117", h117_sm, [("o", TObj(M.Submodel))]),
    O("SubmodelElementCollection.check_aasd_117", h117_smc, [("o", T(M.SubmodelElementCollection))]),
    O("AnnotatedRelationshipElement.check_aasd_117", h117_ann, [("o", T(M.AnnotatedRelationshipElement))]),
    O("Entity.check_aad_117", h117_ent, [("o", T(M.Entity))]),
    O("OperationVariable.check_aasd_117", h117_opv, [("o", TObj(M.OperationVariable))]),
    O("SubmodelElementList.check_aasd_120", h120, [("o", T(M.SubmodelElementList))]),
    O("Operation.check_aasd_134", h134, [("o", T(M.Operation))]),
    O("AssetInformation.check_aasd_116", h116, [("o", TObj(M.AssetInformation))]),
    O("AssetInformation.check_aasd_131", h131, [("o", TObj(M.AssetInformation))]),
    O("SpecificAssetId.check_aasd_133", h133, [("o", TObj(M.SpecificAssetId))]),
    O("DataElement.check_aasd_090", h090, [("o", T(M.DataElement))]),
    O("Submodel.check_aasd_119", h119, [("o", TObj(M.Submodel))]),
    O("Submodel.check_aasd_129", h129, [("o", TObj(M.Submodel))]),
    O("AssetAdministrationShell.check_derived_from", h_derived, [("o", TObj(M.AssetAdministrationShell))]),
    O("AssetAdministrationShell.check_submodels", h_submodels, [("o", TObj(M.AssetAdministrationShell))]),
    O("BasicEventElement.check_observed", h_observed, [("o", T(M.BasicEventElement))]),
    O("BasicEventElement.check_message_broker", h_broker, [("o", T(M.BasicEventElement))]),
] + [O(f"{c.__name__}.check_aasd_118", h118, [("o", T(c))]) for c in (M.SubmodelElement, M.Submodel, M.Qualifier, M.Extension, M.SpecificAssetId)]
ASSUMPTIONS = ["str.lower is modelled as a fixed function of its text; the specification of AASd-116 uses the same function",
               "the parser delivers objects of the declared attribute types (C05, C07)"]
