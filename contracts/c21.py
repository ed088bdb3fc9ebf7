"""C21: HTTP requests."""
import json
import z3
from urllib.parse import urlencode, quote_plus
from unittest import mock
import requests, requests.adapters, requests.api
from pyvc.spec import check
from pyvc.values import *
from pyvc.tds import *
from pyvc.engine import Undecided, PyRaise, zi
from pyvc.driver import Obligation
from contracts.support import host_of, path_of, word_of
from aas_test_engines.http import HttpClient, Request


class Sent(Exception):
    pass


def transmit(client, request):
    """what goes over the wire: [(method, url, body, headers, verify)]"""
    out = []
    def send(self, req, **kw):
        r = requests.Response()
        r.status_code, r._content = 200, b"{}"
        r.url, r.request = req.url, req
        body = req.body.decode() if isinstance(req.body, bytes) else req.body
        out.append((req.method, req.url, body, req.headers, kw.get("verify")))
        return r
    with mock.patch.object(requests.adapters.HTTPAdapter, "send", send), mock.patch.dict("os.environ", {}, clear=True):
        client.send(request)
    return out


def wire(method, url, body, headers):
    """the same request as requests prepares it"""
    s = requests.Session()
    p = s.prepare_request(requests.Request(method=method, url=url, data=body, headers=headers))
    return p.method, p.url, p.body.decode() if isinstance(p.body, bytes) else p.body, p.headers


def expected_url(client_host, prefixes, path, pairs, strip):
    url = "".join(prefixes) + path
    if len(pairs) > 0: url = url + "?" + "&".join([quote_plus(str(k)) + "=" + quote_plus(str(v)) for k, v in pairs])
    return host_part(client_host) + stripped(url, strip)


def host_part(h): return h[:-1] if h.endswith("/") else h


def stripped(url, p):
    return url[len(p):] if url == p or url.startswith(p + "/") else url


def h_wire(host, verify, strip, prefixes, extra, method, path, body, query, headers):
    """black box: the real client, observed at the transport"""
    c = HttpClient(host, verify, strip, extra)
    for p in prefixes: c = c.descend(p)
    r = Request(path, method=method, body=body, query_parameters=query, headers=headers)
    sent = transmit(c, r)
    check("sent exactly once", len(sent) == 1)
    url = expected_url(host, prefixes, path, [(k, v) for k, v in query.items() if v is not None], strip)
    h = dict(extra)
    h.update(headers)
    m, u, b, hs = wire(method, url, None if body is None else json.dumps(body), h)
    check("method", sent[0][0] == m)
    check("url", sent[0][1] == u)
    check("body", sent[0][2] == b if body is None or sent[0][2] is None else json.loads(sent[0][2]) == body)
    check("headers", dict(sent[0][3]) == dict(hs))
    check("TLS verification", sent[0][4] == verify)
    check("client unchanged", c.host == host and c.additional_headers == extra)


def h_history(roots, ops):
    """clients derived from one another and requests sent in any order: every
    request goes out as if its client had been made for it alone"""
    clients, about, reqs = [], [], {}
    for host, strip, extra in roots:
        clients.append(HttpClient(host) if extra is None and strip is None else HttpClient(host, remove_path_prefix=strip or "") if extra is None else HttpClient(host, True, strip or "", dict(extra)))
        about.append((host, extra is not None, strip or "", extra or {}, []))
    for op in ops:
        i = op[1] % len(clients)
        host, verify, strip, extra, prefixes = about[i]
        if op[0] == "descend":
            clients.append(clients[i].descend(op[2]))
            about.append((host, verify, strip, extra, prefixes + [op[2]]))
            continue
        path, query, headers = op[2]
        key = (path, repr(query), repr(headers))
        if key not in reqs or op[0] == "send new": reqs[key] = Request(path) if not query and not headers else Request(path, query_parameters=dict(query), headers=dict(headers))
        sent = transmit(clients[i], reqs[key])
        url = expected_url(host, prefixes, path, [(k, v) for k, v in query.items() if v is not None], strip)
        m, u, b, hs = wire("get", url, None, {**extra, **headers})
        check("sent once, by GET unless another method is given", len(sent) == 1 and sent[0][0] == m)
        check("url", sent[0][1] == u)
        check("no body unless one is given", sent[0][2] == b)
        check("headers", dict(sent[0][3]) == dict(hs))
        check("TLS verification only if configured", sent[0][4] == verify)


def gen_history(g):
    r = g.r
    hs = lambda: {k: r.choice(["1", "2"]) for k in r.sample(["Authorization", "X-A"], r.randint(0, 2))}
    roots = [(r.choice(HOSTS), r.choice([None, "", "/api"]), r.choice([None, hs()])) for _ in range(r.randint(1, 2))]
    req = lambda: (r.choice(PATHS), {k: r.choice([None, "1", "a"]) for k in r.sample(["limit", "cursor"], r.randint(0, 2))}, hs())
    known = [req() for _ in range(3)]
    ops = []
    for _ in range(r.randint(2, 7)):
        ops.append(("descend", r.randrange(8), r.choice(["/api", "/v3", "/shells/x", "/v3/", "x/"])) if r.random() < 0.4 else (r.choice(["send", "send new"]), r.randrange(8), r.choice(known)))
    return [roots, ops]


# ------------------------------------------------------------------ contracts
def calls(c, r):
    c.send(r)
    return []


def h_url_sent(host, strip, sub, target):
    """HttpClient.send against the contracts of make_url and requests.request"""
    c = HttpClient(host, True, strip, {})
    if sub is not None: c = c.descend(sub)
    r = Request("")
    if not marked(r, target): return
    sent = calls(c, r)
    check("sent exactly once", len(sent) == 1)
    check("url", sent[0][1] == host_part(host) + stripped(("" if sub is None else sub) + target, strip))


def h_content_sent(verify, extra, method, body, own):
    c = HttpClient("http://h", verify, "", extra)
    r = Request("/p", method=method, body=body, headers=own)
    if not marked(r, "/p"): return
    sent = calls(c, r)
    check("sent exactly once", len(sent) == 1)
    m, u, b, hs, v = sent[0]
    check("method", m == method)
    check("no body exactly when none is given", (b is None) == (body is None))
    check("body", body is None or b == json.dumps(body))
    check("verify", v is verify or v == verify)
    for k in ("A", "B"):
        w = own.get(k) if own.get(k) is not None else extra.get(k)
        check("header " + k, hs.get(k) == w)


def h_headers_sent(extra, own, name):
    """any number of headers"""
    c = HttpClient("http://h", True, "", extra)
    r = Request("/p", headers=own)
    if not marked(r, "/p"): return
    sent = calls(c, r)
    check("sent exactly once", len(sent) == 1)
    hs = sent[0][3]
    check("the headers are those of the client and the request", (name in hs) == (name in own or name in extra))
    if name in own: check("the request's own headers take precedence", hs[name] == own[name])
    elif name in extra: check("and the client's are kept otherwise", hs[name] == extra[name])


def c_headers_sent(extra, own, name):
    h_wire("http://h", True, "", [], extra, "get", "/p", None, {}, own)


def h_query(path, query):
    """make_url for any number of query parameters"""
    begin()
    pairs = [(k, v) for k, v in query.items() if v is not None]
    u = Request(path, query_parameters=query).make_url()
    if len(pairs) == 0: check("the path alone without parameters", u == path)
    else:
        check("the path, a question mark and the encoded parameters", u == path + "?" + code())
        check("exactly the parameters that are set, in order", coded() == pairs)


def code(): return ""
def coded(): return []
def begin(): pass
def c_query(path, query): check("url of a request", Request(path, query_parameters=query).make_url() == expected_url("", [], path, [(k, v) for k, v in query.items() if v is not None], "\0"))


def mk_map(name, td):
    def mk(e):
        n = z3.Int(name + ".n")
        e.ax.append(n >= 0)
        i = z3.Int(name + "!i")
        key = lambda i: e.app(name + ".key", (zi(i),), e.S)
        idx = lambda s: e.app(name + ".idx", (s,), I)
        e.ax.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), idx(key(i)) == i), patterns=[key(i)]))
        has = lambda k: z3.And(idx(e.st(k)) >= 0, idx(e.st(k)) < n, key(idx(e.st(k))) == e.st(k))
        return SMap(n, key, has, lambda k: e.mk(td, name + ".get", (e.st(k),)))
    return mk


def query_setup(eng):
    log = []
    enc = z3.Const("encoded", eng.S)
    def urlenc(e, a, k):
        if len(a) > 1 or k: raise Undecided("urlencode options")
        v = e.resolve(a[0])
        from pyvc import lib
        log[:] = [e.alloc(Lst(lib.dict_items_segs(e, e.heap[v.id], lambda x, y: (x, y)) if isinstance(v, Ref) and isinstance(e.heap[v.id], Dct) else e.iter_segs(v)))]
        return SStr(enc)
    eng.models[urlencode] = urlenc
    def clear(e, a, k): del log[:]
    eng.models[begin] = clear
    eng.models[code] = lambda e, a, k: SStr(enc)
    eng.models[coded] = lambda e, a, k: log[0] if log else e.new_list([])


def marked(r, target): return True


def send_setup(eng):
    target = [None]
    def mark(e, a, k):
        target[0] = a[1]
        return True
    eng.models[marked] = mark
    mu = Request.__dict__.get("make_url")
    if mu is not None: eng.models[mu] = lambda e, a, k: target[0]
    log = []
    def req(e, a, k):
        names = ["method", "url"]
        k = {**dict(zip(names, a)), **k}
        bad = set(k) - {"method", "url", "data", "headers", "verify"}
        if bad: raise Undecided(f"requests.request({bad})")
        h = e.resolve(k.get("headers"))
        log.append((k.get("method"), k["url"], k.get("data"), h, k.get("verify", True)))
        return SObj(e.fresh("response", U), TAbs("response"))
    inside = []
    SESSION = TAbs("session", methods={"__enter__": lambda e, o, a, k: o, "__exit__": lambda e, o, a, k: False, "close": lambda e, o, a, k: None,
                                       "request": lambda e, o, a, k: req(e, a, k)})
    def session(e, a, k):
        if not inside: raise Undecided("a session kept between requests")
        return SObj(e.fresh("session", U), SESSION)
    eng.models[requests.Session] = session
    eng.models[requests.session] = session
    def run(e, a, k):
        del log[:]
        inside.append(1)
        try: e.call_method(a[0], "send", [a[1]], {})
        finally: inside.pop()
        return e.new_list([tuple(x) for x in log])
    eng.models[calls] = run
    eng.models[requests.request] = req
    eng.models[requests.api.request] = req
    eng.models[json.dumps] = lambda e, a, k: SStr(e.app("json.dumps", (e.resolve(a[0]).t,), e.S))


def hdr(prefix):
    def mk(eng):
        """up to two headers, each present or not"""
        puts = []
        for n in ("A", "B"):
            if eng.branch(eng.app(f"{prefix}.{n}?", (), B)): puts.append((n, SStr(eng.app(f"{prefix}.{n}", (), eng.S))))
        return eng.alloc(Dct(None, puts))
    return mk


def h_descend(host, verify, strip, extra, a, b):
    c = HttpClient(host, verify, strip, extra)
    d = c.descend(a)
    e = d.descend(b)
    for x in (d, e):
        check("host kept", x.host == host)
        check("verification kept", x.verify is verify or x.verify == verify)
        check("prefix removal kept", x.remove_path_prefix == strip)
        check("additional headers kept", x.additional_headers is extra or x.additional_headers == extra)
    check("path prefixes", "".join(c.prefixes) == "" and "".join(d.prefixes) == a and "".join(e.prefixes) == a + b)


def h_url(path, p, q, r):
    """make_url: the parameters that are set, URL-encoded, in order"""
    req = Request(path, query_parameters={"p": p, "q": q, "r": r})
    pairs = [(k, v) for k, v in (("p", p), ("q", q), ("r", r)) if v is not None]
    check("url of a request", req.make_url() == (path if len(pairs) == 0 else path + "?" + encoded(pairs)))
    check("request unchanged", req.path == path and len(req.query_parameters) == 3)


def encoded(pairs): return urlencode(pairs)


def url_setup(eng):
    def enc(e, a, k):
        if len(a) > 1 or k: raise Undecided("urlencode options")
        v = e.resolve(a[0])
        if isinstance(v, Ref) and isinstance(e.heap[v.id], Dct):
            from pyvc import lib
            segs = lib.dict_items_segs(e, e.heap[v.id], lambda x, y: (x, y))
        else: segs = e.iter_segs(v)
        out = []
        for s in segs:
            if not isinstance(s, Unit): raise Undecided("urlencode of symbolic sequence")
            x, y = e.resolve(s.v)
            y = e.resolve(y)
            if isinstance(y, SBool) or isinstance(y, bool) or y is None: raise Undecided("urlencode of non-text")
            out += ["&" if out else "", SStr(e.app("quote", (e.st(x),), e.S)), "=", SStr(e.app("quote", (e.st(y),), e.S))]
        from pyvc.lib import concat
        return concat(e, out)
    eng.models[urlencode] = enc


HOSTS = ["http://h", "http://h/", "https://h:8080/base", "https://h/base/"]
PATHS = ["/shells", "/shells/abc", "/submodels/x/submodel-elements", "/api", "/api/v3", "/api/v3/shells", "/api/v3x/shells", "/apiary", "", "//x", "/x//y/", "/a?b=c", "/a#f", "/%20", "/\u00e4"]


def gen(g):
    r = g.r
    rare = 0.15 if r.random() < 0.3 else 0
    name = lambda k: word_of(g, [k], rare, "[A-Za-z0-9-]+")
    word = lambda xs: word_of(g, xs, rare)
    path = lambda xs: path_of(g, xs, rare)
    hs = lambda: {name(k): word(["1", "x y", ""]) for k in r.sample(["Authorization", "X-A", "Accept", "x-a"], r.randint(0, 3))}
    q = {name(k): word([None, "a b", "1", "ä&=", "", 0, 10, True, False, "x/y", [], {}, "None", "a+b", "~*"]) for k in r.sample(["limit", "cursor", "a b", "level", "ß", ""], r.randint(0, 4))}
    return [host_of(g, HOSTS, rare), r.choice([True, False, True]), path(["", "", "/api", "/api/v3", "/shells", "/", "api", "/x"]),
            [path(["/api", "/v3", "/shells", "", "/a%20b", "/a/", "/", "x", "//", "/api/"]) for _ in range(r.choice([0, 1, 1, 2, 3]))], hs(), r.choice(["get", "put", "post", "delete", "PATCH", "head", "GET", "options"]),
            path(PATHS), r.choice([None, None, {}, [], {"a": "ä", "b": [1, None, True]}, "x", 0, False, ""]), q, hs()]


MODULES = ["aas_test_engines.http"]
O = Obligation
S = TStr()
OBLIGATIONS = [
    O("HttpClient on the wire", h_wire, gen=gen, mode="cross", samples=4000),
    O("clients and requests over time", h_history, gen=gen_history, mode="cross", samples=1500),
    O("HttpClient.send: host", h_url_sent, [("host", S), ("strip", TConst("")), ("sub", TConst(None)), ("target", S)], setup=send_setup, strings="seq", gen=gen, concrete=h_wire),
    O("HttpClient.send: path", h_url_sent, [("host", TConst("http://h")), ("strip", S), ("sub", TOpt(S)), ("target", S)], setup=send_setup, strings="seq", gen=gen, concrete=h_wire),
    O("HttpClient.send: method, body, headers, verification", h_content_sent, [("verify", TBool()), ("extra", hdr("extra")), ("method", S), ("body", TOpt(TOpaque())),
      ("own", hdr("own"))], setup=send_setup, strings="seq", gen=gen, concrete=h_wire),
    O("HttpClient.descend", h_descend, [("host", S), ("verify", TBool()), ("strip", S), ("extra", hdr("extra")), ("a", S), ("b", S)], strings="seq",
      gen=lambda g: [g.r.choice(HOSTS), g.r.choice([True, False]), g.r.choice(PATHS), {"A": "1"}] + ["".join(g.r.choice("//ab% ?#\u00e4") for _ in range(g.r.randint(0, 4))) for _ in range(2)]),
    O("Request.make_url", h_url, [("path", S), ("p", TOpt(S)), ("q", TOpt(S)), ("r", TOpt(S))], setup=url_setup, strings="seq",
      gen=lambda g: [g.r.choice(PATHS)] + [g.r.choice([None, "", "a b", "ä&", "1"]) for _ in range(3)]),
]
OBLIGATIONS += [
    O("HttpClient.send: any headers", h_headers_sent, [("extra", mk_map("extra", S)), ("own", mk_map("own", S)), ("name", S)], setup=send_setup, strings="seq",
      concrete=c_headers_sent, gen=lambda g: [{k: g.r.choice(["1", "x y", ""]) for k in g.r.sample(["Authorization", "X-A", "Accept", "x-a"], g.r.randint(0, 3))} for _ in range(2)] + [""]),
    O("Request.make_url: any parameters", h_query, [("path", S), ("query", mk_map("query", TOpt(S)))], setup=query_setup, strings="seq", concrete=c_query,
      gen=lambda g: [g.r.choice(PATHS), {k: g.r.choice([None, "", "a b", "ä&", 0, 1, False, True, "None"]) for k in g.r.sample(["limit", "cursor", "a b", "level", "ß", "x"], g.r.randint(0, 6))}]),
]
ASSUMPTIONS = ["requests.request transmits exactly the method, URL, body, headers and TLS verification it is given (observed at the transport adapter in the cross-check)",
               "json.dumps and urllib.parse.urlencode behave as documented"]
