"""C10: SubmodelElementList constraints AASd-107, 108, 109, 114 and the element type."""
from pyvc.spec import check, assume
import z3
from pyvc.values import *
from pyvc.engine import Undecided
from pyvc.tds import TObj, TConst
from pyvc.driver import Obligation
from contracts.support import violated
from contracts.c08 import ELEMENTS

from aas_test_engines.test_cases.v3_0 import model as M


def broken(o, method, cid, expected):
    check(f"{cid} reported exactly when broken", violated(o, method, cid) == expected)


def same_ref(a, b):
    """reference equality (C08): type and key chain"""
    return (a.type.value == b.type.value and len(a.keys) == len(b.keys)
            and all(a.keys[i].type.value == b.keys[i].type.value and a.keys[i].value.raw_value == b.keys[i].value.raw_value for i in range(len(a.keys))))


def h107(o):
    broken(o, "check_aasd_107", "AASd-107",
           o.value is not None and o.semantic_id_list_element is not None
           and any(e.semantic_id is not None and not same_ref(e.semantic_id, o.semantic_id_list_element) for e in o.value))


def h108(o):
    broken(o, "check_aasd_108", "AASd-108",
           o.value is not None and any(e.__class__.__name__ != o.type_value_list_element.value for e in o.value))


def h109(o):
    broken(o, "check_aasd_109", "AASd-109",
           o.value is not None and any(isinstance(e, (M.Property, M.Range)) and (o.value_type_list_element is None or e.value_type != o.value_type_list_element)
                                       for e in o.value))


def differ(a, b):
    return a.semantic_id is not None and b.semantic_id is not None and not same_ref(a.semantic_id, b.semantic_id)


def h114(o):
    broken(o, "check_aasd_114", "AASd-114",
           o.value is not None and any(any(differ(o.value[j], o.value[i]) for j in range(0, i)) for i in range(len(o.value))))


def h_type(o):
    broken(o, "check_type_value_list_element", "type_value_list_element", o.type_value_list_element.value not in ELEMENTS)


def h_matches(k, e):
    check("a key type matches exactly the elements of its class", k.matches(e) == (e.__class__.__name__ == k.value))


def ref_eq_contract(eng):
    """Reference.__eq__ by its contract (proved under C08): two references are
    equal exactly when their contents (type and key chain) are, so equality
    is the equality of an abstract content of each reference."""
    def h(e, a, k):
        ts = []
        for v in a:
            v = e.resolve(v)
            if isinstance(v, Ref): v = e.heap[v.id].sym
            t = v.t if isinstance(v, SObj) else v
            if not z3.is_expr(t): raise Undecided("reference equality on a non-reference")
            ts.append(e.app("content", (t,), I))
        return SBool(ts[0] == ts[1])
    f = M.Reference.__dict__.get("__eq__")
    if f is not None: eng.models[f] = h
    eng.models[same_ref] = h


T = TObj(M.SubmodelElementList, overrides={"id_short_path": TConst(None)})
MODULES = ["aas_test_engines.test_cases.v3_0.model"]
O = Obligation
USES = {"c08": ["__eq__"]}  # contracts of callees this property rests on

OBLIGATIONS = [
    O("SubmodelElementList.check_aasd_107", h107, [("o", T)]),
    O("SubmodelElementList.check_aasd_108", h108, [("o", T)]),
    O("SubmodelElementList.check_aasd_109", h109, [("o", T)]),
    O("SubmodelElementList.check_aasd_114", h114, [("o", T)], setup=ref_eq_contract),
    O("SubmodelElementList.check_type_value_list_element", h_type, [("o", T)]),
]
ASSUMPTIONS = ["the parser delivers objects of the declared attribute types (C05, C07)"]
