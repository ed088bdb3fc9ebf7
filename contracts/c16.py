"""C16: package paths."""
import itertools
from pyvc.spec import check
from pyvc.tds import TStr
from pyvc.driver import Obligation
from aas_test_engines.opc import normpath, splitpath


def resolved(tokens):
    """segments kept by POSIX resolution, by position: a segment survives
    unless a later '..' is matched with it"""
    kept = []
    for t in tokens:
        if t.strip() == "" or t == ".": continue
        if t == "..":
            if len(kept) > 0: kept.pop()
        else: kept.append(t)
    return kept


def h_norm(path):
    p = path.strip()
    kept = resolved(p.split("/"))
    got = normpath(path)
    check("starts with one slash exactly when the trimmed input does", got.startswith("/") == p.startswith("/") and not got.startswith("//"))
    check("the remaining segments in order", got == ("/" if p.startswith("/") else "") + "/".join(kept))
    check("no empty, '.' or '..' segments", all(t not in ("", ".", "..") for t in got.lstrip("/").split("/")) or got in ("", "/"))


def h_fold(path):
    p = path.strip()
    kept = resolved(p.split("/"))
    got = normpath(path)
    check("a leading slash exactly when the trimmed input has one, then the remaining segments in order", got == ("/" if p.startswith("/") else "") + "/".join(kept))


def h_split(path):
    head, tail = splitpath(path)
    check("the tail has no slash", "/" not in tail)
    if "/" in path: check("head and tail rejoin", head + "/" + tail == path)
    else: check("no slash: all is the tail", head == "" and tail == path)


TOKENS = ["", ".", "..", "a", "b", " ", "...", ".a", "a.", "..a", " ..", ".. ", "a b"]
_seq = [None]


def enumerate_paths(n):
    for k in range(1, n + 1):
        for ts in itertools.product(TOKENS, repeat=k):
            yield "/".join(ts)


def gen(g):
    if _seq[0] is None: _seq[0] = enumerate_paths(4)
    s = next(_seq[0], None)
    if s is not None and g.r.random() < 0.8: return [s]
    r = g.r
    return [r.choice(["", " ", "\n"]) + "/".join(g.pick(TOKENS + ["ä", "c.xml"]) for _ in range(r.randint(1, 9))) + r.choice(["", " "])]


MODULES = ["aas_test_engines.opc"]
OBLIGATIONS = [
    Obligation("normpath", h_fold, [("path", TStr())], gen=gen, concrete=h_norm, samples=60000),
    Obligation("splitpath", h_split, [("path", TStr())], strings="seq", gen=gen),
]
