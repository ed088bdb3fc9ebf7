"""Shared contract vocabulary."""
import json, os, re
from pyvc.spec import check, assume, SpecFailure, SpecSkip
from aas_test_engines.test_cases.v3_0.parse import CheckConstraintException


def known(fid):
    """is the finding listed in known_findings.txt?  (its exact failing
    region is then tolerated; everything else is still decided)"""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
    try:
        with open(path) as f:
            return any(l.startswith("{") and json.loads(l)["id"] == fid for l in f)
    except FileNotFoundError:
        return False


def violated(obj, name, cid):
    """True iff the constraint check `name` reports a violation; anything else
    it raises propagates (and fails the contract as a crash).  If the check
    lives under another name, its violations are recognised by their id."""
    m = getattr(obj, name, None)
    if m is None: return violated_any(obj, cid)
    try:
        m()
    except CheckConstraintException:
        return True
    return False


def violated_any(obj, cid):
    found = False
    for n in dir(obj):
        if n.startswith("check"):
            try:
                getattr(obj, n)()
            except CheckConstraintException as e:
                if cid in str(e): found = True
    return found


def is_index(s):
    """xs:nonNegativeInteger text"""
    return re.fullmatch(r"[+]?[0-9]+|-0+", s) is not None


def bounded_integer_contract(eng):
    """callers of _is_bounded_integer see its contract (verified under C13)"""
    from aas_test_engines import data_types
    from pyvc.engine import Undecided
    def h(e, a, k):
        s, lo, hi = [e.resolve(x) for x in a]
        if lo == 0 and hi == float("inf"): return e.call(is_index, [s], {})
        if isinstance(s, str) and e.is_concrete([lo, hi]):
            m = re.fullmatch(r"[-+]?[0-9]+", s)
            return m is not None and lo <= int(s) <= hi
        raise Undecided("_is_bounded_integer with other bounds")
    f = getattr(data_types, "_is_bounded_integer", None)
    if f is not None: eng.models[f] = h


# ---------------------------------------------------- words of the source in web addresses
def fitting(g, key, shape):
    """the words of the source of that shape"""
    known_ = g.__dict__.setdefault("fitting", {})
    if key not in known_: known_[key] = [w for w in g.strs if re.fullmatch(shape, w)]
    return known_[key]


def host_of(g, hosts, p=0.1):
    """one of hosts, now and then one made of a word of the source"""
    r = g.r
    if r.random() >= p: return r.choice(hosts)
    k = r.randrange(3)
    if k == 0:
        ws = fitting(g, "url", r"https?://[A-Za-z0-9]+(\.[A-Za-z0-9]+)*(:[1-9][0-9]{0,3})?(/[A-Za-z0-9._/-]*)?")
        if ws:
            w = r.choice(ws)
            return w + (r.choice(["", "", "/"]) if not re.search(r":[0-9]+$", w) else r.choice(["/", "/b"]))
    elif k == 1:
        ws = fitting(g, "host", r"[A-Za-z0-9]+(\.[A-Za-z0-9]+)*")
        if ws: return r.choice(["http://", "https://"]) + r.choice(ws) + r.choice(["", ":8080/b", "/", "/api"])
    else:
        ws = fitting(g, "path", r"/[A-Za-z0-9._/-]*")
        if ws: return r.choice(["http://h", "https://h"]) + r.choice(ws)
    return r.choice(hosts)


def path_of(g, paths, p=0.1):
    r = g.r
    if r.random() >= p: return r.choice(paths)
    ws = fitting(g, "path", r"/[A-Za-z0-9._/-]*")
    if ws and r.random() < 0.5: return r.choice(ws) + r.choice(["", "", "/x"])
    ws = fitting(g, "segment", r"[A-Za-z0-9_-][A-Za-z0-9._-]*")
    return "/" + r.choice(ws) if ws else r.choice(paths)


def word_of(g, words, p=0.1, shape=r"[!-~]([ -~]*[!-~])?"):
    r = g.r
    if r.random() >= p: return r.choice(words)
    ws = fitting(g, shape, shape)
    return r.choice(ws) if ws else r.choice(words)
