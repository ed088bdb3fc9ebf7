"""Runs the obligations of one property: prove, cross-check, replay, report."""
import base64, importlib, json, multiprocessing as mp, os, pickle, random, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Obligation:
    """One contract.  harness: plain Python function; params: [(name, TD)];
    setup(eng): contracts of callees; gen(g): concrete inputs (default: from
    the descriptors); mode 'deduce' | 'bounded' (no symbolic attempt)
    decide(): custom decision procedure -> (verdict, detail, witness_args)."""
    def __init__(self, name, harness, params=(), setup=None, strings="abs", gen=None, mode="deduce", timeout=20000,
                 modules=(), decide=None, samples=None, why=None, stop=True, bounds=(1, 2), fixed=(), isolate=False, functions=(), concrete=None, weak=False, recursion=True):
        self.weak, self.recursion = weak, recursion
        self.concrete = concrete
        self.name, self.harness, self.params, self.setup, self.strings = name, harness, list(params), setup, strings
        self.gen, self.mode, self.timeout, self.modules, self.decide = gen, mode, timeout, list(modules), decide
        self.samples, self.why, self.stop, self.bounds, self.fixed, self.isolate = samples, why, stop, bounds, list(fixed), isolate
        self.functions = list(functions)


RUN_LIMIT = 60  # seconds for one concrete run (they take milliseconds)


class Endless(BaseException):
    pass


def _endless(*_): raise Endless()


def run_concrete(ob, args):
    from .spec import SpecFailure, SpecSkip
    signal.signal(signal.SIGALRM, _endless)
    signal.setitimer(signal.ITIMER_REAL, RUN_LIMIT)
    try:
        return _run_concrete(ob, args, SpecFailure, SpecSkip)
    except Endless:
        return f"no end within {RUN_LIMIT} s"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _run_concrete(ob, args, SpecFailure, SpecSkip):
    try:
        r = (ob.concrete or ob.harness)(*args)
    except SpecSkip:
        return "skip"
    except SpecFailure as e:
        return f"obligation '{e.args[0]}' fails"
    except RecursionError:
        return "unbounded recursion" if ob.recursion else "skip"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if unattached(e, tb): return "skip"
        where = next((f"{os.path.basename(f.filename)}:{f.lineno} in {f.name}" for f in reversed(tb) if "/aas_test_engines/" in f.filename), "")
        return f"unexpected {type(e).__name__}: {e} ({where})"
    return None


def unattached(e, tb):
    """the contract asks for an interface that is not there any more"""
    if not tb or "/contracts/" not in tb[-1].filename: return False
    m = str(e)
    if isinstance(e, AttributeError): return m.startswith("module ") or m.startswith("type object")
    if isinstance(e, TypeError): return "positional argument" in m or "unexpected keyword" in m or "required keyword" in m
    return False


def describe(v, depth=0):
    import dataclasses, enum
    if depth > 6: return "..."
    if isinstance(v, enum.Enum): return str(v)
    if isinstance(v, (str, int, float, bool, bytes, type(None))): return repr(v)
    if isinstance(v, (list, tuple)): return "[" + ", ".join(describe(x, depth + 1) for x in v) + "]"
    if isinstance(v, dict): return "{" + ", ".join(f"{describe(k)}: {describe(x, depth+1)}" for k, x in v.items()) + "}"
    if hasattr(v, "raw_value") and len(getattr(v, "__dict__", {})) == 1: return f"{type(v).__name__}({v.raw_value!r})"
    if hasattr(v, "__dict__"):
        return f"{type(v).__name__}(" + ", ".join(f"{k}={describe(x, depth+1)}" for k, x in v.__dict__.items() if x is not None and not k.startswith("_")) + ")"
    return repr(v)


def search(ob, seed, budget_s, maxn, strs, ints, stop_at_first=True):
    """concrete runs of the contract on generated inputs"""
    from .gen import Gen
    g = Gen(seed, strs, ints)
    t0, n, eff = time.time(), 0, 0
    for f in ob.fixed:
        args = f() if callable(f) else f
        n += 1
        r = run_concrete(ob, args)
        if r is None: eff += 1
        if r not in (None, "skip"): return n, eff, (r, args)
    if not ob.params and ob.gen is None:
        if not ob.fixed:
            r = run_concrete(ob, [])
            n += 1
            if r is None: eff += 1
            if r not in (None, "skip"): return n, eff, (r, [])
        return n, eff, None
    while n < maxn and time.time() - t0 < budget_s:
        g.new_case()
        try:
            args = ob.gen(g) if ob.gen else [g.gen(td) for _, td in ob.params]
        except RecursionError:
            continue
        n += 1
        r = run_concrete(ob, args)
        if r is None: eff += 1
        if r not in (None, "skip"):
            return n, eff, (r, args)
    return n, eff, None


def shrink(ob, args, first):
    """drop list elements / optional fields while the failure stays"""
    import copy
    t0 = time.time()
    best = args
    def variants(v, setter, depth=0):
        if depth > 5: return
        if isinstance(v, list):
            for i in range(len(v)):
                yield lambda i=i: setter(v[:i] + v[i + 1:])
            for i, x in enumerate(v):
                yield from variants(x, lambda y, i=i: v.__setitem__(i, y), depth + 1)
        elif hasattr(v, "__dict__") and not hasattr(v, "raw_value"):
            for k, x in list(v.__dict__.items()):
                if x is not None and not isinstance(x, (str, int, bool)):
                    import enum
                    if isinstance(x, enum.Enum): continue
                    yield lambda k=k: v.__dict__.__setitem__(k, None)
                    yield from variants(x, lambda y, k=k: v.__dict__.__setitem__(k, y), depth + 1)
    def ok(a):
        r = run_concrete(ob, a)
        return r == first
    try:
        progress = True
        while progress and time.time() - t0 < 5:
            progress = False
            n = sum(1 for i, a in enumerate(best) for _ in variants(a, lambda y: None))
            for idx in range(n):
                if time.time() - t0 > 5: break
                c = copy.deepcopy(best)
                vs = [f for i, a in enumerate(c) for f in variants(a, lambda y, i=i: c.__setitem__(i, y))]
                if idx >= len(vs): break
                vs[idx]()
                if ok(copy.deepcopy(c)):
                    best = c
                    progress = True
                    break
    except Exception:
        pass
    return best


def work(task):
    """run in a child process: one obligation"""
    modname, idx, tier, seed = task
    from . import verify as V, smt
    from .gen import harvest, Decoder
    import z3
    mod = importlib.import_module(modname)
    ob = mod.OBLIGATIONS[idx]
    thorough = tier == "thorough"
    out = {"name": ob.name, "status": None, "vcs": [], "functions": [], "assumed": [], "secs": 0, "concrete": 0, "effective": 0,
           "failure": None, "note": "", "backend": {}, "solver_s": 0.0}
    t0 = time.time()
    try:
        strs, ints = harvest([importlib.import_module(m) for m in (ob.modules or getattr(mod, "MODULES", ()))])
    except Exception as e:
        strs, ints = [], []
    # 1. deductive step
    refuted_models, res = [], None
    if ob.decide is not None:
        try:
            verdict, detail, wit = ob.decide()
        except Exception as e:
            verdict, detail, wit = "undecided", f"decision procedure: {type(e).__name__}: {e}", None
            out["tb"] = traceback.format_exc(chain=False)[-4000:]
        out["vcs"] = [(l, v, s, b) for l, v, s, b in (detail if isinstance(detail, list) else [])]
        out["functions"] = list(ob.functions)
        out["status"] = verdict
        if not isinstance(detail, list): out["note"] = str(detail)
        if wit is not None:
            r = run_concrete(ob, wit)
            if r not in (None, "skip"): out["failure"] = (r, wit)
            else: out["note"] += f" witness {wit!r} not confirmed by execution"
    elif ob.mode == "closed":
        # no inputs: evaluating the real code on the one case is the proof
        r = run_concrete(ob, [])
        out["functions"] = list(ob.functions)
        if r is None:
            out["status"] = "proved"
            out["vcs"] = [(ob.name, "valid", 0.0, "evaluation")]
        elif r == "skip": out["status"], out["note"] = "undecided", "contract does not attach"
        else: out["failure"], out["status"] = (r, []), "refuted"
    elif ob.mode == "cross":
        out["status"] = "cross-check"
    elif ob.mode == "deduce":
        try:
            res = V.verify(ob.name, ob.harness, ob.params, setup=ob.setup, strings=ob.strings, timeout=ob.timeout * (3 if thorough else 1),
                           stop_on_fail=ob.stop)
        except AttributeError as e:
            # a callee under contract is not there any more
            res = None
            out["note"] = "contract does not attach: " + repr(e)
        if res is None: out["status"], refuted_models = "unattached", []
        else:
            out["vcs"] = [(l, v, round(s, 3), b) for l, v, s, b in res.vcs]
            out["functions"] = sorted(res.functions)
            out["assumed"] = sorted(res.lib)
            out["paths"] = res.paths
            out["solver_s"] = smt.STATS["z3_s"] + smt.STATS["cvc5_s"]
            if res.proved: out["status"] = "proved"
            elif res.refuted and any(v == "sat" and not l.startswith(("no unexpected AttributeError", "no unexpected TypeError")) for l, v, q in res.refuted) and not ob.weak: out["status"] = "refuted"
            elif res.refuted: out["status"] = "unknown"
            else: out["status"] = "undecided"
            out["note"] = res.undecided or "; ".join(f"{l}: {v}" for l, v, q in res.refuted[:3])
            refuted_models = res.models
    else:
        out["status"] = "bounded"
        out["note"] = ob.why or "outside the verifier's reach"
        out["functions"] = list(ob.functions)
    # 2. replay of counterexamples
    if out["status"] in ("refuted", "unknown", "undecided") and ob.decide is None and out["failure"] is None:
        cands = []
        if all(hasattr(td, "__class__") and not callable(td) for _, td in ob.params):
            for label, m, qf in refuted_models[:4]:
                try:
                    d = Decoder(res.eng, m)
                    cands.append([d.dec(td, n) for n, td in ob.params])
                except Exception: pass
            if not any(run_concrete(ob, c) not in (None, "skip") for c in cands):
                for b in ob.bounds:
                    r2 = V.verify(ob.name, ob.harness, ob.params, setup=ob.setup, strings=ob.strings, timeout=10000, bounded=b, stop_on_fail=True, maxpaths=1500)
                    for label, m, qf in r2.models[:3]:
                        try:
                            d = Decoder(r2.eng, m)
                            cands.append([d.dec(td, n) for n, td in ob.params])
                        except Exception: pass
                    if r2.refuted: break
                    out["note"] += f" [bounded lists<={b}: {'proved' if r2.proved else (r2.undecided or 'not proved')}]"
        for c in cands:
            r = run_concrete(ob, c)
            if r not in (None, "skip"):
                out["failure"] = (r, c)
                break
    # 3. concrete cross-check / bounded stand-in
    if out["failure"] is None:
        if out["status"] == "proved": bs, mx = (20, 20000) if thorough else (3, 1500)
        elif out["status"] == "cross-check": bs, mx = (60, 60000) if thorough else (8, 8000)
        else: bs, mx = (240, 400000) if thorough else (60, 60000)
        if ob.samples: mx = ob.samples * (10 if thorough else 1)
        n, eff, fail = search(ob, seed * 1000003 + idx, bs, mx, strs, ints)
        out["concrete"], out["effective"] = n, eff
        if fail: out["failure"] = fail
    if out["failure"]:
        r, args = out["failure"]
        args = shrink(ob, args, r)
        rec = {"reason": r, "args": [describe(a) for a in args]}
        try: rec["pickle"] = base64.b64encode(pickle.dumps(args)).decode()
        except Exception: pass
        out["failure"] = rec
    out["secs"] = round(time.time() - t0, 3)
    return out


def _child(conn, task):
    try:
        conn.send(work(task))
    except BaseException as e:
        conn.send({"name": str(task), "status": "error", "note": "".join(traceback.format_exception(e, chain=False))[-4000:], "vcs": [], "functions": [],
                   "assumed": [], "secs": 0, "concrete": 0, "effective": 0, "failure": None, "solver_s": 0})
    conn.close()


def run_all(tasks, limit_s, jobs):
    """each obligation in its own process with a time limit"""
    ctx = mp.get_context("fork")
    pend, live, res = list(enumerate(tasks)), {}, {}
    while pend or live:
        while pend and len(live) < jobs:
            i, t = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, t))
            p.start(); b.close()
            live[i] = (p, a, time.time(), t)
        for i, (p, a, t0, t) in list(live.items()):
            if a.poll(0.02):
                try: res[i] = a.recv()
                except EOFError: res[i] = None
                p.join(); del live[i]
            elif not p.is_alive():
                res[i] = None; del live[i]
            elif time.time() - t0 > limit_s:
                p.terminate(); p.join(); del live[i]
                res[i] = None
        time.sleep(0.01)
    for i, t in enumerate(tasks):
        if res.get(i) is None:
            res[i] = {"name": None, "status": "timeout", "note": f"no answer within {limit_s} s", "vcs": [], "functions": [], "assumed": [],
                      "secs": limit_s, "concrete": 0, "effective": 0, "failure": None, "solver_s": 0}
    return [res[i] for i in range(len(tasks))]


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"): continue
            d = json.loads(l)
            if d.get("property") == prop: out.append(d)
    except FileNotFoundError: pass
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    modname = f"contracts.{prop.lower()}"
    ev = {"property": prop, "tier": tier, "seed": seed}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replay")
    try:
        mod = importlib.import_module(modname)
        obs = mod.OBLIGATIONS
    except Exception as e:
        # the code under test does not even import / its interface is gone
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-import.json")
        json.dump({"property": prop, "obligation": "contracts attach to the real code", "output": traceback.format_exc(chain=False)[-4000:]}, open(path, "w"), indent=1)
        print(traceback.format_exc(chain=False)[-4000:])
        importable = True
        try: importlib.import_module("aas_test_engines.__main__")
        except Exception: importable = False
        write_evidence(ev, prop, [], [], t0, note="contracts could not be attached: " + repr(e), violations=[] if importable else [{"replay": path}])
        if importable:
            print(f"UNDECIDED property={prop}: contracts could not be attached to the code ({e!r})")
            return 0
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if "--replay" in argv:
        d = json.load(open(argv[argv.index("--replay") + 1]))
        name, src = d["obligation"], obs
        if name[:1] == "C" and name[3:4] == "/": name, src = name[4:], importlib.import_module(f"contracts.{name[:3].lower()}").OBLIGATIONS
        ob = next(o for o in src if o.name == name)
        r = run_concrete(ob, pickle.loads(base64.b64decode(d["pickle"])))
        print("replay:", r)
        return 1 if r not in (None, "skip") else 0
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    # the property's own contracts, then the contracts of the callees it relies on
    cone = [(modname, i, o, o.name) for i, o in enumerate(obs)]
    prepares = [mod]
    for dep, names in getattr(mod, "USES", {}).items():
        try: dm = importlib.import_module(f"contracts.{dep}")
        except Exception as e:
            print(f"[{prop}] contracts of {dep} could not be attached: {e!r}")
            continue
        prepares.append(dm)
        cone += [(f"contracts.{dep}", i, o, f"{dep.upper()}/{o.name}") for i, o in enumerate(dm.OBLIGATIONS)
                 if o.mode != "cross" and (names is None or any(n in o.name for n in names))]
    cone = [c for c in cone if only is None or only in c[3]]
    tasks = [(m, i, tier, seed) for m, i, o, n in cone]
    limit = 780 if tier == "quick" else 3000
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    for m in prepares:
        if hasattr(m, "prepare"): m.prepare()
    outs = run_all(tasks, limit if len(tasks) <= jobs else limit // max(1, (len(tasks) + jobs - 1) // jobs) + 60, jobs)
    known = known_findings(prop)
    viol, rc = [], 0
    for k in known:
        # a listed finding is announced as long as it still fails
        demo = getattr(mod, "FINDINGS", {}).get(k["id"])
        try: still = demo is not None and demo()
        except Exception: still = False
        if still: print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for (m, i, ob, name), o in zip(cone, outs):
        o["name"] = name
        if o["status"] == "error": print(o["note"])
        nv = sum(1 for v in o["vcs"] if v[1] == "valid")
        print(f"[{prop}] {name}: {o['status']} ({nv}/{len(o['vcs'])} obligations, {o['concrete']} concrete runs, {o['secs']} s) {o['note'] if o['status'] != 'proved' else ''}")
        fail = o["failure"]
        if fail or o["status"] == "refuted":
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{prop}-{i}.json" if m == modname else f"{prop}-{m.split('.')[-1]}-{i}.json")
            rec = {"property": prop, "obligation": name, "verifier": o["note"], "failed_vcs": [v for v in o["vcs"] if v[1] != "valid"]}
            if fail: rec.update(fail)
            json.dump(rec, open(path, "w"), indent=1)
            rc = 1
            viol.append({"obligation": name, "replay": path, "input": fail["args"] if fail else None})
            if fail:
                print(f"  failing input: {fail['args']}\n  {fail['reason']}")
                print(f"VIOLATION property={prop} replay={path}")
            else:
                print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    write_evidence(ev, prop, obs, outs, t0, mod=mod, violations=viol)
    print(f"[{prop}] {'VIOLATED' if rc else 'held'} in {time.time() - t0:.1f} s")
    return rc


def write_evidence(ev, prop, obs, outs, t0, mod=None, note=None, violations=()):
    proved = [o for o in outs if o["status"] == "proved"]
    nb = [o for o in outs if o["status"] not in ("proved", "cross-check")]
    total = sum(len(o["vcs"]) for o in outs if o["status"] == "proved")
    good = sum(sum(1 for v in o["vcs"] if v[1] == "valid") for o in outs if o["status"] == "proved")
    backends = {}
    for o in outs:
        for v in o["vcs"]:
            if v[1] == "valid": backends[v[3]] = backends.get(v[3], 0) + 1
    ev["level"] = "proof"
    ev["coverage"] = {
        "obligations": total, "discharged": good,
        "checker_cmd": f"python3-vt /verif/check.py {prop}",
        "trusted_base": ["pyvc (symbolic evaluator of CPython semantics in /verif/pyvc)", "z3 (library)", "cvc5 1.1.2"] + list(getattr(mod, "TRUSTED", []) if mod else []),
        "contracts_proved": [o["name"] for o in proved],
        "contracts_bounded": [{"contract": o["name"], "why": o["note"][:400], "concrete_runs": o["concrete"], "effective_runs": o["effective"]} for o in nb],
        "functions_under_contract": sorted({f for o in outs for f in o["functions"]}),
        "discharged_by": backends,
        "solver_seconds": round(sum(o.get("solver_s", 0) for o in outs), 3),
        "concrete_cross_check_runs": sum(o["concrete"] for o in outs),
        "cross_checks": [{"contract": o["name"], "concrete_runs": o["concrete"]} for o in outs if o["status"] == "cross-check"],
        "paths": sum(o.get("paths", 0) for o in outs),
    }
    ev["assumptions"] = list(getattr(mod, "ASSUMPTIONS", []) if mod else []) + (
        ["library calls modelled by their documented behaviour: " + ", ".join(sorted({f for o in outs for f in o["assumed"]}))] if outs else [])
    if note: ev["coverage"]["note"] = note
    ev["wall_s"] = round(time.time() - t0, 3)
    ev["violations"] = list(violations)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
