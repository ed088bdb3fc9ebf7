"""Back ends: z3 (library) first, then cvc5 (binary) on the same obligation."""
import os, subprocess, tempfile, time
import z3
from .engine import zb, has_quant

STATS = {"z3": 0, "cvc5": 0, "z3_s": 0.0, "cvc5_s": 0.0, "queries": 0}


def _cvc5(s, timeout_ms):
    txt = s.to_smt2()
    txt = "(set-logic ALL)\n" + txt
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(["cvc5", "--strings-exp", f"--tlimit={timeout_ms}", f.name], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 10)
        return (r.stdout.strip().split("\n") or [""])[0]
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)


def check_valid(eng, facts, goal, timeout=20000, fallback=True, want_model=None):
    """facts |- goal : 'valid' | 'sat' | 'unknown'.  want_model: list that
    receives the z3 model when refuted."""
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("random_seed", 1)
    for a in eng.str_ops_axioms(): s.add(a)
    for a in eng.ax: s.add(a)
    for f in facts:
        if f is True: continue
        s.add(zb(f))
    s.add(z3.Not(zb(goal)))
    STATS["queries"] += 1
    t = time.time()
    eng.last_backend = "z3"
    lem = getattr(eng, "str_auto", None) and eng.strings == "abs"
    if lem: s.set("timeout", min(timeout, 3000))
    quick = eng.strings != "abs" and fallback and timeout > 4000
    if quick: s.set("timeout", 3000)
    r = s.check()
    STATS["z3_s"] += time.time() - t
    if r == z3.unsat:
        STATS["z3"] += 1
        return "valid"
    if quick and r == z3.unknown:
        # string theory: the other solver first, then this one at full length
        t = time.time()
        c = _cvc5(s, timeout)
        STATS["cvc5_s"] += time.time() - t
        if c == "unsat":
            STATS["cvc5"] += 1
            eng.last_backend = "cvc5"
            return "valid"
        t = time.time()
        s.set("timeout", timeout)
        r = s.check()
        STATS["z3_s"] += time.time() - t
        if r == z3.unsat:
            STATS["z3"] += 1
            return "valid"
        fallback = False
    if lem and r == z3.unknown and fallback:
        t = time.time()
        c = _cvc5(s, 4000)
        STATS["cvc5_s"] += time.time() - t
        if c == "unsat":
            STATS["cvc5"] += 1
            eng.last_backend = "cvc5"
            return "valid"
    if lem:
        from . import strlem
        t = time.time()
        l = strlem.lemma(eng, [f for f in facts if z3.is_expr(f)] + [zb(goal)])
        s.set("timeout", timeout)
        if l is not None:
            for g in l[1]: s.add(g)
            s.add(l[0])
            eng.str_table = (l[2], l[3])
            eng.last_backend = "automata+z3"
        r = s.check()
        STATS["z3_s"] += time.time() - t
        if r == z3.unsat:
            STATS["z3"] += 1
            return "valid"
        if r == z3.unknown and l is not None:
            # without the quantified form: a model is exact for the ground strings
            s2 = z3.Solver(); s2.set("timeout", 5000)
            for a in s.assertions():
                if not a.eq(l[0]): s2.add(a)
            if s2.check() == z3.sat and not any(has_quant(a) for a in s2.assertions()):
                if want_model is not None: want_model.append(s2.model())
                return "sat"
    if r == z3.sat:
        if want_model is not None: want_model.append(s.model())
        return "sat"
    if fallback:
        t = time.time()
        r = _cvc5(s, timeout)
        STATS["cvc5_s"] += time.time() - t
        if r == "unsat":
            STATS["cvc5"] += 1
            return "valid"
    return "unknown"
