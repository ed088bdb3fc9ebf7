"""C26: base64url identifiers."""
import base64, json
import z3
from pyvc.spec import check
from pyvc.values import *
from pyvc.tds import *
from pyvc.driver import Obligation
from pyvc.engine import Undecided
from aas_test_engines.data_types import base64_urlsafe
from aas_test_engines.reflect import StringFormattedValue
from aas_test_engines.test_cases.v3_0.interfaces.shared import AssetId, Base64String
from aas_test_engines.test_cases.v3_0 import model

ABC = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def encoded(b):
    """RFC 4648 section 5 without padding, written out"""
    out = ""
    for i in range(0, len(b), 3):
        c = b[i:i + 3]
        v = int.from_bytes(c + bytes(3 - len(c)), "big")
        out += "".join(ABC[(v >> s) & 63] for s in (18, 12, 6, 0))[:len(c) + 1]
    return out


def h_encode(s):
    check("the unpadded URL-safe encoding", base64_urlsafe(s) == encoded(s.encode("utf-8")))


def h_render(raw, b64):
    try:
        x = Flagged(raw) if b64 else Plain(raw)
    except ValueError:
        return
    check("declared base64 renders encoded, others unchanged", str(x) == (base64_urlsafe(raw) if b64 else raw))


def h_asset(name, value):
    t = str(AssetId(name, value))
    check("URL-safe and unpadded", all(c in ABC for c in t))
    d = json.loads(base64.urlsafe_b64decode(t + "=" * (-len(t) % 4)).decode("utf-8"))
    check("the encoding of name and value", d == {"name": name, "value": value})


class Flagged(StringFormattedValue):
    base64 = True


class Plain(StringFormattedValue):
    pass


def h_classes():
    check("identifier strings are declared base64", str(Base64String("a?")) == "YT8")
    def every(c):
        for s in c.__subclasses__():
            yield s
            yield from every(s)
    for c in every(StringFormattedValue):
        if c.__module__ == model.__name__:
            check("strings of the meta-model render unchanged", not c.base64)


# ----------------------------------------------------------- deductive contracts
def encoding_of(s): return None


def h_padding(s):
    """base64_urlsafe against the contract of base64.urlsafe_b64encode"""
    e = encoding_of(s)          # text over the alphabet, length a multiple of 4, at most two '=' at the end
    r = base64_urlsafe(s)
    check("no padding is left", "=" not in r)
    check("restoring the padding gives the encoding", r == e or r + "=" == e or r + "==" == e)


def pad_setup(eng):
    SS = z3.StringSort()
    def enc(e, t):
        x = e.app("b64", (t,), SS)
        body = e.app("b64.body", (t,), SS)
        pad = e.app("b64.pad", (t,), SS)
        e.assume(z3.And(x == z3.Concat(body, pad), z3.Not(z3.Contains(body, z3.StringVal("="))),
                        z3.Or(pad == "", pad == "=", pad == "==")))
        return x
    def b64(e, a, k):
        o = e.resolve(a[0])
        if not (isinstance(o, SObj) and o.t.decl().name() == "encode"): raise Undecided("encoding of other bytes")
        t = o.t.arg(0)
        def strip(e, o, a, k):
            if list(a) != [b"="]: raise Undecided("strip of other characters")
            m = e.hooks["str.rstrip"](e, SStr(enc(e, t)), ["="])
            return SObj(e.app("b64.stripped", (t,), U), TAbs("stripped bytes", methods={"decode": lambda e, o, a, k: m}))
        return SObj(e.app("b64.bytes", (t,), U), TAbs("b64 bytes", methods={"decode": lambda e, o, a, k: SStr(enc(e, t)), "rstrip": strip, "strip": strip}))
    eng.models[base64.urlsafe_b64encode] = b64
    eng.models[encoding_of] = lambda e, a, k: SStr(enc(e, e.st(e.resolve(a[0]))))
    def stripper(side):
        def h(e, recv, args):
            if args != ["="] and args != ("=",): raise Undecided("strip of other characters")
            t = e.st(recv)
            l = e.app("strip.l", (t,), SS) if side != "r" else z3.StringVal("")
            r = e.app("strip.r", (t,), SS) if side != "l" else z3.StringVal("")
            m = e.app("strip.m" + side, (t,), SS)
            eq = z3.Star(z3.Re("="))
            f = [t == z3.Concat(l, m, r), z3.InRe(l, eq), z3.InRe(r, eq)]
            if side != "r": f.append(z3.Not(z3.PrefixOf(z3.StringVal("="), m)))
            if side != "l": f.append(z3.Not(z3.SuffixOf(z3.StringVal("="), m)))
            e.assume(z3.And(*f))
            return SStr(m)
        return h
    eng.hooks["str.strip"] = stripper("b")
    eng.hooks["str.rstrip"] = stripper("r")


def h_asset_parts(name, value):
    """AssetId.__str__ against the contracts of json.dumps and base64_urlsafe"""
    x = AssetId(name, value)
    begin()
    t = str(x)
    d = dumped()
    check("one JSON text is made", len(d) == 1)
    check("of an object with exactly name and value", len(d[0]) == 2 and "name" in d[0] and "value" in d[0])
    check("which are those of the asset id", d[0]["name"] == name and d[0]["value"] == value)
    check("and is encoded", t == base64_urlsafe(json_text()))


def begin(): pass
def dumped(): return []
def json_text(): return ""


def asset_setup(eng):
    encode_contract(eng)
    log = []
    out = z3.Const("json text", eng.S)
    def dumps(e, a, k):
        if len(a) != 1 or set(k) - {"separators", "ensure_ascii", "indent", "sort_keys", "allow_nan", "check_circular"}: raise Undecided("options of json.dumps")
        log.append(a[0])
        return SStr(out)
    def clear(e, a, k): del log[:]
    eng.models[json.dumps] = dumps
    eng.models[begin] = clear
    eng.models[dumped] = lambda e, a, k: e.new_list(list(log))
    eng.models[json_text] = lambda e, a, k: SStr(out)


def encode_contract(eng):
    eng.models[base64_urlsafe] = lambda e, a, k: SStr(e.app("base64url", (e.st(e.resolve(a[0])),), e.S))


TEXTS = ["", "a", "ab", "abc", "abcd", "http://example.com/?a=b&c", "ä", "漢字", "😀", "=", "==", "a=", "\x00", "~~~", "???", ">>>", "\u00ff\u00fe"]


def text(r): return r.choice(TEXTS) if r.random() < 0.3 else "".join(chr(r.choice([r.randrange(128), r.randrange(256), r.randrange(0xD800), r.randrange(0xE000, 0x10FFFF)])) for _ in range(r.randint(0, 9)))


def xml_text(r): return "".join(c for c in text(r) if c in "\t\n\r" or " " <= c <= "\ud7ff" or "\ue000" <= c <= "\ufffd" or c >= "\U00010000")


MODULES = ["aas_test_engines.data_types"]
O = Obligation
OBLIGATIONS = [
    O("encoding", h_encode, gen=lambda g: [g.pick([text(g.r)])], mode="cross", samples=20000, functions=["aas_test_engines.data_types:base64_urlsafe"]),
    O("padding", h_padding, [("s", TStr())], setup=pad_setup, strings="seq", concrete=h_encode, gen=lambda g: [g.pick([text(g.r)])]),
    O("rendering", h_render, [("raw", TStr()), ("b64", TBool())], setup=encode_contract, gen=lambda g: [xml_text(g.r), g.r.random() < 0.5]),
    O("asset ids", h_asset_parts, [("name", TStr()), ("value", TStr())], setup=asset_setup, concrete=h_asset, gen=lambda g: [text(g.r), text(g.r)], samples=5000),
    O("base64 declarations", h_classes, mode="closed"),
]
ASSUMPTIONS = ["base64.urlsafe_b64encode returns a text over the URL-safe alphabet followed by at most two '='; its decoder inverts it (cross-checked against RFC 4648 written out)",
               "json.dumps of a dictionary of texts is read back by a JSON decoder as the same dictionary (cross-checked)",
               "texts are Unicode scalar values (lone surrogates have no UTF-8 form)"]
