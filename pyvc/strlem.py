"""Lemmas about abstract strings: which truth assignments of the regular
predicates occurring in a query are realised by some string (automata)."""
import z3
from .values import *
from . import lang

STATS = {"lemmas": 0, "states": 0}
_cache = {}


def collect(exprs):
    """unary string predicates, intval/strlen comparisons and literals used"""
    preds, cmps, lits = {}, {}, {}
    seen, todo = set(), [e for e in exprs if z3.is_expr(e)]
    def num(t): return z3.is_int_value(t)
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body()); continue
        if not z3.is_app(e): continue
        ch = e.children()
        d = e.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            if len(ch) == 1 and ch[0].sort() == AStr and e.sort() == B: preds[d.name()] = d
            if not ch and e.sort() == AStr: lits[d.name()] = e
        if d.kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and len(ch) == 2 and ch[0].sort() == I:
            a, b, k = ch[0], ch[1], d.kind()
            if num(a) and not num(b):
                a, b = b, a
                k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
            if num(b) and z3.is_app(a) and a.decl().name() in ("intval", "strlen") and a.num_args() == 1:
                c = b.as_long()
                op, c = {z3.Z3_OP_LE: ("<=", c), z3.Z3_OP_GE: (">=", c), z3.Z3_OP_LT: ("<=", c - 1), z3.Z3_OP_GT: (">=", c + 1), z3.Z3_OP_EQ: ("==", c)}[k]
                cmps[(a.decl().name(), op, c)] = a.decl()
        todo.extend(ch)
    return preds, cmps, lits


def lemma(eng, exprs):
    """ForAll s. one of the realisable assignments; or None"""
    preds, cmps, lits = collect(exprs)
    atoms = []
    for n in sorted(preds):
        if n in eng.str_auto: atoms.append((("pred", n), lambda n=n: eng.auto(n), lambda x, d=preds[n]: d(x)))
    for (n, op, c) in sorted(cmps):
        d = cmps[(n, op, c)]
        mk = (lambda op=op, c=c: lang.IntAuto(op, c)) if n == "intval" else (lambda op=op, c=c: lang.LenAuto(op, max(c, -1)) if c >= -1 else lang.LenAuto(op, -1))
        if n == "intval" and "int()" not in [a[0][1] for a in atoms]:
            f = eng.fn("int()", AStr, B)
            atoms.append((("pred", "int()"), lang.IntAuto, lambda x, f=f: f(x)))
        f = {"<=": lambda x, d=d, c=c: d(x) <= c, ">=": lambda x, d=d, c=c: d(x) >= c, "==": lambda x, d=d, c=c: d(x) == c}[op]
        atoms.append(((n, op, c), mk, f))
    if not atoms: return None
    litused = [(s, c) for s, c in eng.lits.items() if c.decl().name() in lits]
    if len(litused) <= 40:
        for s, c in litused: atoms.append((("lit", s), lambda s=s: lang.LitAuto(s), lambda x, c=c: x == c))
    if len(atoms) < 1 or len(atoms) > 60: return None
    key = tuple(a[0] for a in atoms)
    if key not in _cache:
        try:
            _cache[key] = lang.vectors([mk() for _, mk, _ in atoms], limit=60000, seconds=20)
            STATS["lemmas"] += 1
            STATS["states"] += lang.vectors.states
        except (lang.Unsupported, RecursionError):
            _cache[key] = None
    vs = _cache[key]
    if vs is None or len(vs) > 4000: return None
    # intval comparisons say nothing about texts int() rejects
    x = z3.Const("x!re", AStr)
    alts = []
    ii = [i for i, a in enumerate(atoms) if a[0] == ("pred", "int()")]
    for v in vs:
        alts.append(z3.And(*[f(x) if b else z3.Not(f(x)) for (k, mk, f), b in zip(atoms, v)
                             if not (k[0] == "intval" and ii and not v[ii[0]])]))
    pats = [f(x) for k, mk, f in atoms if k[0] == "pred"]
    pats += [d(x) for d in {c.name(): c for c in cmps.values()}.values()]
    ax = z3.ForAll([x], z3.Or(*alts), patterns=pats) if pats else z3.ForAll([x], z3.Or(*alts))
    ground = [z3.substitute(z3.Or(*alts), (x, t)) for t in string_terms(exprs)]
    return ax, ground, atoms, vs


def string_terms(exprs):
    out, seen, todo = {}, set(), [e for e in exprs if z3.is_expr(e)]
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): continue
        if z3.is_app(e):
            if e.sort() == AStr: out[e.get_id()] = e
            todo.extend(e.children())
    return list(out.values())[:40]
