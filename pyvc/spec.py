"""Vocabulary of the contracts.  A contract is a plain Python function that
calls the real code and states `check(name, condition)`; preconditions are
`assume(condition)`.  The engine proves every check on all paths for all
inputs; CPython runs the same function on concrete inputs for replay."""


class SpecFailure(Exception):
    pass


class SpecSkip(Exception):
    pass


def assume(cond):
    if not cond: raise SpecSkip()


def check(name, cond):
    if not cond: raise SpecFailure(name)


def outcome(f, *args):
    """('ok', value) or ('raise', exception)"""
    try:
        return ("ok", f(*args))
    except SpecFailure:
        raise
    except SpecSkip:
        raise
    except Exception as e:
        return ("raise", e)


def implies(a, b): return (not a) or b
