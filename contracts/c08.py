"""C08: reference constraints AASd-121..128 and reference equality."""
from pyvc.spec import check, assume
from pyvc.tds import TObj
from contracts.support import violated, is_index

from aas_test_engines.test_cases.v3_0 import model

# --- specification (AAS 3.0 part 1, key type groups), by literal name ------
GENERIC_GLOBAL = {"GlobalReference"}
AAS_IDENT = {"AssetAdministrationShell", "ConceptDescription", "Identifiable", "Submodel"}
GENERIC_FRAGMENT = {"FragmentReference"}
ELEMENTS = {"AnnotatedRelationshipElement", "BasicEventElement", "Blob", "Capability", "DataElement", "Entity",
            "EventElement", "File", "MultiLanguageProperty", "Operation", "Property", "Range", "ReferenceElement",
            "RelationshipElement", "SubmodelElement", "SubmodelElementCollection", "SubmodelElementList"}
GLOBALLY = GENERIC_GLOBAL | AAS_IDENT
FRAGMENT = GENERIC_FRAGMENT | ELEMENTS


def kt(key): return key.type.value
def external(r): return r.type.value == "ExternalReference"
def modelref(r): return r.type.value == "ModelReference"


def s121(r): return kt(r.keys[0]) not in GLOBALLY
def s122(r): return external(r) and kt(r.keys[0]) not in GENERIC_GLOBAL
def s123(r): return modelref(r) and kt(r.keys[0]) not in AAS_IDENT
def s124(r): return external(r) and kt(r.keys[len(r.keys) - 1]) not in GENERIC_GLOBAL and kt(r.keys[len(r.keys) - 1]) not in GENERIC_FRAGMENT
def s125(r): return modelref(r) and any(kt(r.keys[i]) not in FRAGMENT for i in range(1, len(r.keys)))
def s126(r): return modelref(r) and any(kt(r.keys[i]) in GENERIC_FRAGMENT for i in range(0, len(r.keys) - 1)) 
def s127(r): return modelref(r) and any(kt(r.keys[i]) == "FragmentReference" and kt(r.keys[i - 1]) not in {"File", "Blob"} for i in range(1, len(r.keys)))
def s128(r): return modelref(r) and any(kt(r.keys[i - 1]) == "SubmodelElementList" and not is_index(r.keys[i].value.raw_value) for i in range(1, len(r.keys)))


def h121(r): check("AASd-121 reported exactly when broken", violated(r, "check_aasd_121", "AASd-121") == s121(r))
def h122(r): check("AASd-122 reported exactly when broken", violated(r, "check_aasd_122", "AASd-122") == s122(r))
def h123(r): check("AASd-123 reported exactly when broken", violated(r, "check_aasd_123", "AASd-123") == s123(r))
def h124(r): check("AASd-124 reported exactly when broken", violated(r, "check_aasd_124", "AASd-124") == s124(r))
def h125(r): check("AASd-125 reported exactly when broken", violated(r, "check_aasd_125", "AASd-125") == s125(r))
def h126(r): check("AASd-126 reported exactly when broken", violated(r, "check_aasd_126", "AASd-126") == s126(r))
def h127(r): check("AASd-127 reported exactly when broken", violated(r, "check_aasd_127", "AASd-127") == s127(r))
def h128(r): check("AASd-128 reported exactly when broken", violated(r, "check_aasd_128", "AASd-128") == s128(r))


def heq(a, b):
    same = (a.type == b.type and len(a.keys) == len(b.keys)
            and all(a.keys[i].type == b.keys[i].type and a.keys[i].value.raw_value == b.keys[i].value.raw_value for i in range(len(a.keys))))
    check("references equal exactly when type and key chain are", (a == b) == same)


REF = TObj(model.Reference)

from pyvc.driver import Obligation
from contracts.support import bounded_integer_contract
MODULES = ["aas_test_engines.test_cases.v3_0.model"]
USES = {"c13": ["xs:nonNegativeInteger"]}  # contracts of callees this property rests on

OBLIGATIONS = [Obligation(f"Reference.check_aasd_{n}", globals()[f"h{n}"], [("r", REF)], setup=bounded_integer_contract if n == 128 else None) for n in range(121, 129)] + [
    Obligation("Reference.__eq__", heq, [("a", REF), ("b", REF)]),
]
ASSUMPTIONS = ["_is_bounded_integer(s, 0, inf) accepts exactly the xs:nonNegativeInteger texts (verified under C13)"]
