"""Generate and discharge the obligations of a contract."""
import sys, time, traceback
import z3
from .values import *
from .tds import *
from .engine import *
from .engine import _MISSING
from . import spec, smt, lib, loops


class Result:
    def __init__(self, name):
        self.name = name
        self.vcs = []          # (label, verdict, secs, backend)
        self.undecided = None
        self.functions = set()
        self.lib = set()
        self.paths = 0
        self.models = []       # (label, model, args, eng)
        self.refuted = []      # labels
        self.secs = 0.0

    @property
    def proved(self): return self.undecided is None and self.vcs and all(v == "valid" for _, v, *_ in self.vcs)


def setup_spec(eng, res, timeout, stop_on_fail):
    def do_check(e, a, k):
        name, cond = a
        t = e.truth_val(cond)
        record(e, res, str(name), t, timeout, stop_on_fail)
        return None
    def do_assume(e, a, k):
        e.assume(zb(e.truth_val(a[0])) if not isinstance(e.truth_val(a[0]), bool) else e.truth_val(a[0]))
        return None
    eng.models[spec.check] = do_check
    eng.models[spec.assume] = do_assume
    from contracts import support
    eng.models[support.known] = lambda e, a, k: support.known(*a)
    eng.models[spec.implies] = lambda e, a, k: e.to_bool_value(zor([znot(e.truth_val(a[0])), e.truth_val(a[1])]))


class StopFail(Exception):
    pass


def record(eng, res, label, goal, timeout, stop_on_fail):
    key = (label, eng.path_key())
    if key in res.seen: return
    t0 = time.time()
    b0 = dict(smt.STATS)
    if goal is True or (z3.is_expr(goal) and z3.is_true(goal)):
        verdict, backend = "valid", "evaluation"
    else:
        m = []
        verdict = smt.check_valid(eng, eng.pc, goal, timeout, want_model=m)
        backend = "cvc5" if smt.STATS["cvc5"] > b0["cvc5"] else getattr(eng, "last_backend", "z3")
        if verdict != "valid":
            qf = not has_quant(zb(goal)) and not any(has_quant(p) for p in eng.pc if z3.is_expr(p))
            res.refuted.append((label, verdict, qf))
            if m: res.models.append((label, m[0], qf))
    res.seen.add(key)
    res.vcs.append((label, verdict, time.time() - t0, backend))
    if verdict != "valid" and stop_on_fail: raise StopFail()
    if verdict == "valid" and not isinstance(goal, bool): pass


def verify(name, harness, params, setup=None, strings="abs", timeout=20000, bounded=None, stop_on_fail=True, feas_timeout=400, maxpaths=None, budget=None):
    res = Result(name)
    res.seen = set()
    t0 = time.time()
    eng = Engine(strings=strings, feas_timeout=feas_timeout)
    if maxpaths: eng.MAXPATHS = maxpaths
    eng.bounded = bounded
    eng.deadline = t0 + (budget or 200)
    res.eng = eng
    setup_spec(eng, res, timeout, stop_on_fail)
    if setup: setup(eng)
    try:
        def th():
            args = [eng.mk(td, n) if isinstance(td, TD) else td(eng) for n, td in params]
            res.args = args
            try:
                eng.call(harness, args, {})
            except PyRaise as e:
                cls = eng.exc_class(e.val)
                msg = ""
                if cls in (TypeError, AttributeError) and (e.where or "").startswith("contracts"):
                    raise Undecided(f"contract does not attach: {cls.__name__} {eng.heap[e.val.id].fields.get('args')}")
                try: msg = str(eng.heap[e.val.id].fields.get("args", ""))
                except Exception: pass
                record(eng, res, f"no unexpected {cls.__name__} {msg}"[:120], False, timeout, stop_on_fail)
            return None
        outs = eng.explore(th)
        res.paths = len(outs)
        if not outs: res.undecided = "no feasible path (vacuous)"
        if not res.vcs: res.undecided = "no obligations generated"
    except StopFail:
        pass
    except (Undecided, PoisonRead) as e:
        res.undecided = f"{type(e).__name__}: {e}" + (f" {e.loc}" if isinstance(e, PoisonRead) else "")
    except (RecursionError, AssertionError, KeyError, AttributeError, z3.Z3Exception, TypeError, IndexError, NotImplementedError, ValueError) as e:
        res.undecided = "engine: " + "".join(traceback.format_exception_only(type(e), e)).strip()
        res.tb = traceback.format_exc()
    res.functions = set(eng.fn_seen)
    res.lib = set(eng.lib_used)
    for o in eng.obligations: res.vcs.append((f"{o[0]}:{o[1]}", o[2], 0.0, "z3"))
    res.secs = time.time() - t0
    return res
