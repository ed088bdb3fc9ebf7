"""C03: text, JSON and HTML reports."""
import html, html.parser, json, re
import z3
from pyvc.spec import check, assume
from pyvc.tds import *
from pyvc.values import *
from pyvc.engine import zi
from pyvc.driver import Obligation
from aas_test_engines import result as R
from aas_test_engines.result import AasTestResult, Level


# ------------------------------------------------ deductive: one tree level --
def node(msg, lv, subs):
    n = AasTestResult(msg, lv)
    for s in subs: n.append(s)
    return n


def h_lines(msg, lv, subs, indent):
    n = node(msg, lv, subs)
    lines = list(n.to_lines(indent))
    exp = ["   " * indent + n.level.color() + msg + "\033[0m"]
    for s in subs: exp.extend(s.to_lines(indent + 1))
    check("own line first, then the lines of every sub result one level deeper, in order", lines == exp)


def h_dict(msg, lv, subs):
    n = node(msg, lv, subs)
    d = n.to_dict()
    check("message", d["m"] == msg)
    check("numeric severity", d["l"] == n.level.value)
    check("sub results in order", d["s"] == [s.to_dict() for s in subs])


def h_json(msg, lv, subs):
    assume(all(AasTestResult.from_json(s).level.value <= lv.value for s in subs))
    n = AasTestResult.from_json({"m": msg, "l": lv.value, "s": subs})
    check("message", n.message == msg)
    check("sub results in order", n.sub_results == [AasTestResult.from_json(s) for s in subs])
    check("severity of a consistent tree", n.level == lv)


def h_html(msg, lv, subs, level):
    n = node(msg, lv, subs)
    cls = {"INFO": "info", "WARNING": "warning", "ERROR": "error", "CRITICAL": "critical"}[n.level.name]
    got = n._to_html(level)
    m = html.escape(msg)
    good = n.level.name in {"INFO", "WARNING"}
    s = "<div>\n"
    if subs:
        c = "" if good else "caret-down"
        s += f'<div class="{cls}">{m}<span class="caret level-{level} {c}"/></div>\n'
        c = "" if good else "visible"
        s += f'<div class="sub-results {c}">\n'
        for x in subs: s += x._to_html(level + 1)
        s += "</div>\n"
    else:
        s += f'<div class="{cls}">{m}</div>\n'
    s += "</div>\n"
    check("escaped message, severity class and nested sub results", got == s)


# ------------------------------------------------------ whole trees, executed --
def strip(line): return re.sub(r"\033\[[0-9]+m", "", line)


def flatten(n, d=0):
    out = [(d, n.message)]
    for s in n.sub_results: out += flatten(s, d + 1)
    return out


def shape(n): return (n.message, n.level, [shape(s) for s in n.sub_results])


def c_lines(t):
    n = build(t)
    want = [(d, m) for d, m in flat_spec(t)]
    got = list(n.to_lines())
    check("one line per node", len(got) == len(want))
    check("depth first, indented, with message", [strip(l) for l in got] == ["   " * d + strip(m) for d, m in want])
    # colour codes of the report do not depend on anything but the severity
    check("messages unaltered", all(m in l for l, (d, m) in zip(got, want)))


def c_dump(t):
    import io, contextlib
    n = build(t)
    f = io.StringIO()
    with contextlib.redirect_stdout(f): n.dump()
    check("dump prints exactly the lines", f.getvalue() == "".join(l + "\n" for l in n.to_lines()))


def c_json(t):
    n = build(t)
    d = json.loads(json.dumps(n.to_dict()))
    def rec(d, n):
        check("message", d["m"] == n.message)
        check("numeric severity", d["l"] == {"INFO": 0, "WARNING": 1, "ERROR": 2, "CRITICAL": 3}[n.level.name])
        check("all sub results", len(d["s"]) == len(n.sub_results))
        for x, y in zip(d["s"], n.sub_results): rec(x, y)
    rec(d, n)
    if not consistent(n): return
    b = AasTestResult.from_json(d)
    check("round trip", shape(b) == shape(n))


class P(html.parser.HTMLParser):
    """reads the tree of divs back"""
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.roots = [], []
    def handle_starttag(self, tag, attrs):
        if tag != "div": return
        n = {"cls": dict(attrs).get("class"), "text": "", "kids": []}
        (self.stack[-1]["kids"] if self.stack else self.roots).append(n)
        self.stack.append(n)
    def handle_startendtag(self, tag, attrs): pass
    def handle_endtag(self, tag):
        if tag == "div": self.stack.pop()
    def handle_data(self, data):
        if self.stack: self.stack[-1]["text"] += data


def to_tree(n):
    kids = n["kids"]
    check("every node is a labelled div", n["cls"] is None and len(kids) in (1, 2))
    subs = []
    if len(kids) == 2:
        check("sub results section", "sub-results" in kids[1]["cls"].split())
        subs = [to_tree(k) for k in kids[1]["kids"]]
    return (kids[0]["text"], kids[0]["cls"], subs)


def c_html(t):
    n = build(t)
    page = n.to_html()
    def rec(n): return (n.message, n.level.name.lower(), [rec(s) for s in n.sub_results])
    plain = AasTestResult("MARKER-MARKER")
    tmpl = plain.to_html()
    i = tmpl.index("MARKER-MARKER")
    i = tmpl.rindex("<div>", 0, i)
    pre = tmpl[:i]
    check("inside the page template", page.startswith(pre))
    j = tmpl.index("</div>", tmpl.index("</div>", i) + 1) + len("</div>")
    post = tmpl[j:]
    check("page template complete", page.endswith(post.lstrip("\n")))
    body = page[len(pre):len(page) - len(post)]
    p = P()
    p.feed(body); p.close()
    check("balanced", p.stack == [] and len(p.roots) == 1)
    check("quotes are escaped", not re.search("[\"']", re.sub("<[^>]*>", "", body)))
    check("html tree equals result tree", to_tree(p.roots[0]) == rec(n))


def build(t):
    """the same description twice is the same result object twice"""
    n, made = AasTestResult(t[0], t[1]), {}
    for c in t[2]:
        if id(c) not in made: made[id(c)] = build(c)
        n.append(made[id(c)])
    for c in t[2]:
        # sub results that grow after they were attached: their parent keeps its severity
        for x in c[3:]:
            made[id(c)].append(build(x))
    return n


def flat_spec(t, d=0):
    out = [(d, t[0])]
    for c in t[2]: out += flat_spec(c, d + 1)
    for c in t[3:]: out += flat_spec(c, d + 1)
    return out


def consistent(n): return all(s.level.value <= n.level.value and consistent(s) for s in n.sub_results)


def gen_tree(g):
    msgs = ["", "a", "<b>", "a & b", '"q"', "x'y", "<!-- CONTENT -->", "line", "&amp;", "é", "{0}", "%s", "</div>", "a  b", "   c", "a\\1b", "\\g<0>\\n", "two\nlines", "tab\t", "w" * 90 + "e", "long " * g.r.choice([20, 70, 250, 1100]), "\x1b[91m", "\u2028", "\U0001f600"]
    def rec(d):
        w = g.r.choice([0, 1, 1, 2, 3, g.llen if g.llen is not None and d < 2 else 1])
        if d == top and top < 4: w = g.size([w])
        subs = [rec(d - 1) for _ in range(w)] if d > 0 else []
        if subs and g.r.random() < 0.05: g.r.choice(subs).append([g.choice("m", msgs), g.choice("lv", list(Level)), []])
        elif subs and g.r.random() < 0.05: subs.insert(g.r.randrange(len(subs) + 1), g.r.choice(subs))
        return [g.choice("m", msgs) if g.r.random() < 0.7 else g.str(), g.choice("lv", list(Level)), subs]
    top = g.r.choice([0, 1, 2, 3, 5])
    t = rec(top)
    for _ in range(g.size([0], 130)): t = [g.choice("m", msgs), g.choice("lv", list(Level)), [t]]
    return [t]


def gen_sub(g):
    return build(gen_tree(g)[0])


def m_lines(e, o, a, k):
    ind = e.it(a[0] if a else k.get("indent", 0))
    n = e.app("lines#n", (o.t, ind), I)
    e.assume(n >= 1)
    return e.alloc(Lst([Span(n, lambda i: SStr(e.app("lines#nth", (o.t, ind, zi(i)), e.S)))]))


SUB = TAbs("AasTestResult*", attrs={"level": TEnum(Level), "message": TStr()}, cls=AasTestResult, gen=gen_sub, methods={
    "to_lines": m_lines,
    "to_dict": lambda e, o, a, k: SObj(e.app("to_dict", (o.t,), U), TAbs("dict*")),
    "_to_html": lambda e, o, a, k: SStr(e.app("html#", (o.t, e.it(a[0])), e.S)),
})
PARSED = TAbs("AasTestResult*", attrs={"level": TEnum(Level), "message": TStr()}, cls=AasTestResult)
DATA = TAbs("dict*", gen=lambda g: build(gen_tree(g)[0]).to_dict())


def json_contract(eng):
    f = AasTestResult.__dict__["from_json"].__func__
    def h(e, a, k):
        d = e.resolve(a[-1])
        if isinstance(d, SObj) and d.td is DATA: return SObj(e.app("parsed", (d.t,), U), PARSED)
        return e.call_pyfunc(f, a, k)
    eng.models[f] = h


MODULES = ["aas_test_engines.result"]
LV = TEnum(Level)
NODE = [("msg", TStr()), ("lv", LV), ("subs", TList(SUB))]


def c_h_json(msg, lv, subs):
    n = AasTestResult.from_json({"m": msg, "l": lv.value, "s": subs})
    check("message", n.message == msg)
    check("sub results in order", [shape(x) for x in n.sub_results] == [shape(AasTestResult.from_json(s)) for s in subs])


USES = {"c01": None}  # contracts of callees this property rests on

OBLIGATIONS = [
    Obligation("to_lines (inductive step)", h_lines, NODE + [("indent", TInt(0))], weak=True),
    Obligation("to_dict (inductive step)", h_dict, NODE),
    Obligation("from_json (inductive step)", h_json, [("msg", TStr()), ("lv", LV), ("subs", TList(DATA))], setup=json_contract, concrete=c_h_json),
    Obligation("_to_html (inductive step)", h_html, NODE + [("level", TInt(0))], weak=True, concrete=lambda *a: None),
    Obligation("text report of whole trees", c_lines, gen=gen_tree, mode="cross"),
    Obligation("dump of whole trees", c_dump, gen=gen_tree, mode="cross"),
    Obligation("JSON report of whole trees", c_json, gen=gen_tree, mode="cross"),
    Obligation("HTML report of whole trees", c_html, gen=gen_tree, mode="cross"),
]
ASSUMPTIONS = ["html.escape is the standard library's escaping", "the page template file is static"]
