"""C13: numeric and boolean value validators."""
from pyvc.spec import check
from pyvc.tds import TStr
from pyvc.driver import Obligation
from contracts import xsd
from aas_test_engines import data_types as D

NUM = ["xs:string", "xs:boolean", "xs:decimal", "xs:float", "xs:double"] + list(xsd.RANGES)


def validator(t): return D.validators[D.DataTypeDefXsd(t)]


def harness(t):
    def h(s):
        check(f"{t} accepts exactly its value space", bool(validator(t)(s)) == xsd.accepts(t, s))
    return h


def h_total():
    names = sorted(t.value for t in D.DataTypeDefXsd)
    check("the 30 value types of the specification", names == sorted(xsd.TYPES))
    check("every value type has a validator", all(t in D.validators and callable(D.validators[t]) for t in D.DataTypeDefXsd))


BOUNDS = sorted({b for r in xsd.RANGES.values() for b in r if b is not None})


def gen(g):
    r = g.r
    k = r.random()
    if k < 0.01: return [r.choice(["", "-", "+"]) + r.choice("019") * r.choice([4300, 4301, 5000]) + r.choice(["", "0", "127", ".5", "e3", "x"])]
    if k < 0.3: return [r.choice(xsd.SAMPLES["num"])]
    if k < 0.6:
        v = r.choice(BOUNDS) + r.randint(-2, 2)
        return [r.choice(["", "+", "-", ""]) * (v >= 0) + "0" * r.choice([0, 0, 1, 3]) * (v >= 0) + str(v) + r.choice(["", "", "", ".0", "\n", " ", "_0"])]
    if k < 0.8: return ["".join(r.choice("0123456789+-.eE_ \nINFa") for _ in range(r.randint(0, 8)))]
    return [f"{r.choice(['', '-', '+'])}{r.choice(['1', '3.4028', '1.797693', '0.1', '.5', '340282', '9'])}{r.choice(['', '2', '9'])}{r.choice('eE')}{r.choice(['', '+', '-'])}{r.choice([0, 5, 32, 33, 37, 38, 39, 302, 307, 308, 309, 400])}"]


MODULES = ["aas_test_engines.data_types"]
OBLIGATIONS = [Obligation("every value type has a validator", h_total, mode="closed", functions=["aas_test_engines.data_types:validators"])]
OBLIGATIONS += [Obligation(f"validator of {t}", harness(t), [("s", TStr())], gen=gen) for t in NUM]
ASSUMPTIONS = ["float(text) is the same function in the code and in the specification (its rounding is not modelled)",
               "Decimal(text) and int(Decimal) are exact (documented)"]
