"""C15: anyURI, binary and language-tag validators."""
from pyvc.spec import check
from pyvc.tds import TStr
from pyvc.driver import Obligation
from contracts import xsd
from contracts.c13 import harness
from aas_test_engines import data_types as D


def h_lang(s): check("exactly the well-formed BCP 47 tags", bool(D.is_bcp_lang_string(s)) == xsd.language_tag(s))
def h_eng(s): check("exactly the English tags", bool(D.is_bcp_47_for_english(s)) == xsd.english_tag(s))
def h_uri(s): check("exactly the RFC 3987 IRI references", bool(D.is_any_uri(s)) == xsd.any_uri(s))


URIS = ["", "a", "/", "//", "a:", "http://a", "http://a/b?c#d", "http://[::1]/", "http://[1:2:3:4:5:6:7:8]", "http://[1::8]", "//[::1.2.3.4]:80", "//[v1.a]", "//u@h:1/p",
        "%41", "%4", "%zz", "a b", "a\n", "?q", "#f", "#f#g", "1:2", "./1:2", "ü", "\ue000", "?\ue000", "#\ue000", "//256.1.1.1", "http://[::g]", "a:b:c", ":a", "//a:b", "\\", "{x}",
        "http://[1::2::3]", "\ufdd0", "\U0001fffe", "a\u00a0", "file:///c:/x", "mailto:a@b", "urn:a:b", "//[1::]", "//[::]", "//[1:2::1.2.3.4]"]
LANGS = ["", "de", "en", "EN", "En", "en-US", "en-", "en-a", "de-DE-1996", "x-a", "x", "i-klingon", "I-KLINGON", "i-foo", "zh-min-nan", "sgn-BE-FR", "aaaa", "aaaaaaaaa", "abcdefgh",
         "de-1abc", "de-a-bb", "de-x-1", "de-Latn-DE", "en\n", "a", "12", "de_DE", "en-GB-oed", "EN-x", "en-abc-def-ghi-jkl", "de-123", "de-12", "art-lojban", "en-a\n", "eng", "e",
         "de-a-b", "de-x-123456789", "\u017f-a", "en-\u212a"]
BINS = ["", "0", "00", "0g", "aF", "0 0", "00\n", "aaaa", "aaa=", "aa==", "aA==", "aQ==", "AAE=", "AAF=", "a===", "AAAAA", "A A A A", "AAAA AAAA", " AAAA", "AAAA ", "A  AAA", "AA= =", "AA ==",
        "====", "AAAA====", "A-_A", "AAAA\n", "AQ=", "AQ==AAAA", "１２", "+/+/"]


def gen(pool, chars):
    def g_(g):
        r = g.r
        k = r.random()
        if k < 0.35: return [r.choice(pool)]
        s = r.choice(pool)
        if k < 0.8 and s:
            i = r.randrange(len(s) + 1)
            j = r.randint(i, min(len(s), i + 1))
            return [s[:i] + r.choice(["", r.choice(chars), r.choice(pool)]) + s[j:]]
        return ["".join(r.choice(chars) for _ in range(r.randint(0, 10)))]
    return g_


U = gen(URIS, "aZ09:/?#[]@!%.-_~é\ue000 \n<{\\^`|\"")
L = gen(LANGS, "aZexi019-- \n_")
X = gen(BINS, "AaQg09fF=+/ -\n")
MODULES = ["aas_test_engines.data_types"]
OBLIGATIONS = [
    Obligation("validator of xs:anyURI", harness("xs:anyURI"), [("s", TStr())], gen=U),
    Obligation("is_any_uri", h_uri, [("s", TStr())], gen=U),
    Obligation("validator of xs:hexBinary", harness("xs:hexBinary"), [("s", TStr())], gen=X),
    Obligation("validator of xs:base64Binary", harness("xs:base64Binary"), [("s", TStr())], gen=X),
    Obligation("is_bcp_lang_string", h_lang, [("s", TStr())], gen=L),
    Obligation("is_bcp_47_for_english", h_eng, [("s", TStr())], gen=L),
]
ASSUMPTIONS = ["CPython's re module implements the language of its patterns (automata are built from its own parse trees)"]
