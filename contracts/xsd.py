"""Independent specification of the value spaces: XML Schema 1.0 part 2,
RFC 3987 (IRI references) and BCP 47 (RFC 5646)."""
import re
from decimal import Decimal

INT = r"[+-]?[0-9]+"
TZ = r"(?:Z|[+-](?:(?:0[0-9]|1[0-3]):[0-5][0-9]|14:00))?"
YEAR = r"-?(?:[1-9][0-9]{3,}|0[0-9]{3})"
MON = r"(?:0[1-9]|1[0-2])"
DAY = r"(?:0[1-9]|[12][0-9]|3[01])"
TIME = r"(?:(?:[01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](?:\.[0-9]+)?|24:00:00(?:\.0+)?)"
DUR_T = r"T(?:[0-9]+H(?:[0-9]+M)?(?:[0-9]+(?:\.[0-9]+)?S)?|[0-9]+M(?:[0-9]+(?:\.[0-9]+)?S)?|[0-9]+(?:\.[0-9]+)?S)"
DURATION = r"-?P(?=.)(?:[0-9]+Y)?(?:[0-9]+M)?(?:[0-9]+D)?(?:T(?=.)(?:[0-9]+H)?(?:[0-9]+M)?(?:[0-9]+(?:\.[0-9]+)?S)?)?"
DURATION_RL = (rf"-?P(?:(?:[0-9]+Y(?:[0-9]+M)?(?:[0-9]+D)?|[0-9]+M(?:[0-9]+D)?|[0-9]+D)(?:{DUR_T})?|{DUR_T})")


def value(s): return int(Decimal(s))  # int(s) is limited to 4300 digits


def boolean(s): return s == "true" or s == "false" or s == "1" or s == "0"
def decimal(s): return re.fullmatch(r"[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)", s) is not None


def integer(s, lo, hi):
    if re.fullmatch(INT, s) is None: return False
    v = value(s)
    return (lo is None or v >= lo) and (hi is None or v <= hi)


FLOATING = r"[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[Ee][+-]?[0-9]+)?"
FLT = 3.4028234663852886e38
DBL = 1.7976931348623157e308


def floating(s, limit):
    if s == "INF" or s == "-INF" or s == "NaN": return True
    if re.fullmatch(FLOATING, s) is None: return False
    v = float(s)
    return v > -limit and v < limit


def hexbin(s): return re.fullmatch(r"(?:[0-9a-fA-F][0-9a-fA-F])*", s) is not None


B64 = "[A-Za-z0-9+/]"
BASE64 = f"(?:(?:{B64} ?{B64} ?{B64} ?{B64} ?)*(?:{B64} ?{B64} ?{B64} ?{B64}|{B64} ?{B64} ?[AEIMQUYcgkosw048] ?=|{B64} ?[AQgw] ?= ?=))?"


def base64bin(s): return re.fullmatch(BASE64, s) is not None


def leap(y):
    """y: astronomical year (0 is 1 BC)"""
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def last_day(y, m):
    if m == 2: return 29 if leap(y if y > 0 else y + 1) else 28
    if m == 4 or m == 6 or m == 9 or m == 11: return 30
    return 31


def ymd_ok(y, m, d): return y != 0 and d <= last_day(y, m)


def date(s):
    m = re.fullmatch(f"({YEAR})-({MON})-({DAY}){TZ}", s)
    if m is None: return False
    return ymd_ok(value(m.group(1)), value(m.group(2)), value(m.group(3)))


def date_time(s):
    m = re.fullmatch(f"({YEAR})-({MON})-({DAY})T{TIME}{TZ}", s)
    if m is None: return False
    return ymd_ok(value(m.group(1)), value(m.group(2)), value(m.group(3)))


def date_time_utc(s):
    m = re.fullmatch(f"({YEAR})-({MON})-({DAY})T{TIME}(?:Z|[+-]00:00)", s)
    if m is None: return False
    return ymd_ok(value(m.group(1)), value(m.group(2)), value(m.group(3)))


def g_month_day(s):
    m = re.fullmatch(f"--({MON})-({DAY}){TZ}", s)
    if m is None: return False
    return value(m.group(2)) <= last_day(4, value(m.group(1)))


def time(s): return re.fullmatch(TIME + TZ, s) is not None
def g_year(s): return re.fullmatch(YEAR + TZ, s) is not None
def g_year_month(s): return re.fullmatch(f"{YEAR}-{MON}{TZ}", s) is not None
def g_month(s): return re.fullmatch(f"--{MON}{TZ}", s) is not None
def g_day(s): return re.fullmatch(f"---{DAY}{TZ}", s) is not None
def duration(s): return re.fullmatch(DURATION_RL, s) is not None


# ------------------------------------------------------------------ RFC 3987
def _iri():
    def rng(a, b): return f"\\U{a:08x}-\\U{b:08x}"
    ucs = rng(0xA0, 0xD7FF) + rng(0xF900, 0xFDCF) + rng(0xFDF0, 0xFFEF) + "".join(rng(p * 0x10000, p * 0x10000 + 0xFFFD) for p in range(1, 14)) + rng(0xE1000, 0xEFFFD)
    priv = rng(0xE000, 0xF8FF) + rng(0xF0000, 0xFFFFD) + rng(0x100000, 0x10FFFD)
    unres = r"A-Za-z0-9\-._~"
    sub = r"!$&'()*+,;="
    pct = "%[0-9A-Fa-f]{2}"
    def star(cls, rep="*"): return f"(?:[{cls}]|{pct}){rep}"
    pchar = unres + ucs + sub + ":@"
    seg, seg1, seg1nc = star(pchar), star(pchar, "+"), star(unres + ucs + sub + "@", "+")
    userinfo, regname = star(unres + ucs + sub + ":"), star(unres + ucs + sub)
    octet = "(?:25[0-5]|2[0-4][0-9]|1[0-9][0-9]|[1-9]?[0-9])"
    v4 = rf"{octet}(?:\.{octet}){{3}}"
    h = "[0-9A-Fa-f]{1,4}"
    ls = f"(?:{h}:{h}|{v4})"
    alts = [f"(?:{h}:){{6}}{ls}", f"::(?:{h}:){{5}}{ls}"]
    for left in range(1, 6):
        pre = f"(?:(?:{h}:){{0,{left - 1}}}{h})?"
        mid = 5 - left
        alts.append(f"{pre}::(?:{h}:){{{mid}}}{ls}")
    alts.append(f"(?:(?:{h}:){{0,5}}{h})?::{h}")
    alts.append(f"(?:(?:{h}:){{0,6}}{h})?::")
    v6 = "(?:" + "|".join(alts) + ")"
    vf = rf"[vV][0-9A-Fa-f]+\.[{unres}{sub}:]+"
    host = rf"(?:\[(?:{v6}|{vf})\]|{regname})"          # an IPv4 address is a reg-name as well
    auth = rf"(?:{userinfo}@)?{host}(?::[0-9]*)?"
    abempty = f"(?:/{seg})*"
    absolute = f"/(?:{seg1}{abempty})?"
    tail = rf"(?:\?(?:[{pchar}{priv}/?]|{pct})*)?(?:#(?:[{pchar}/?]|{pct})*)?"
    hier = f"(?://{auth}{abempty}|{absolute}|{seg1}{abempty}|)"
    rel = f"(?://{auth}{abempty}|{absolute}|{seg1nc}{abempty}|)"
    return rf"(?:[A-Za-z][A-Za-z0-9+\-.]*:{hier}{tail}|{rel}{tail})"


IRI_REFERENCE = _iri()


def any_uri(s): return re.fullmatch(IRI_REFERENCE, s) is not None


# -------------------------------------------------------------------- BCP 47
def _bcp47():
    L, A = "[A-Za-z]", "[A-Za-z0-9]"
    def ci(t): return "".join(f"[{c.upper()}{c.lower()}]" if c.isalpha() else c for c in t)
    irregular = "en-GB-oed i-ami i-bnn i-default i-enochian i-hak i-klingon i-lux i-mingo i-navajo i-pwn i-tao i-tay i-tsu sgn-BE-FR sgn-BE-NL sgn-CH-DE".split()
    regular = "art-lojban cel-gaulish no-bok no-nyn zh-guoyu zh-hakka zh-min zh-min-nan zh-xiang".split()
    lang = f"(?:{L}{{2,3}}(?:-{L}{{3}}(?:-{L}{{3}}){{0,2}})?|{L}{{4,8}})"
    priv = f"[xX](?:-{A}{{1,8}})+"
    tag = f"{lang}(?:-{L}{{4}})?(?:-(?:{L}{{2}}|[0-9]{{3}}))?(?:-(?:{A}{{5,8}}|[0-9]{A}{{3}}))*(?:-[0-9A-WY-Za-wy-z](?:-{A}{{2,8}})+)*(?:-{priv})?"
    return f"(?:{tag}|{priv}|" + "|".join(ci(t) for t in irregular + regular) + ")"


BCP47 = _bcp47()


def language_tag(s): return re.fullmatch(BCP47, s) is not None
def english_tag(s): return re.fullmatch(r"(?:en|EN)(?:-[^\n]*)?", s) is not None


# -------------------------------------------------------------- all 30 types
def accepts(t, s):
    """s is in the value space of the type named t"""
    if t == "xs:string": return True
    if t == "xs:boolean": return boolean(s)
    if t == "xs:decimal": return decimal(s)
    if t in RANGES: return integer(s, RANGES[t][0], RANGES[t][1])
    if t == "xs:float": return floating(s, FLT)
    if t == "xs:double": return floating(s, DBL)
    return OTHERS[t](s)


RANGES = {"xs:integer": (None, None), "xs:byte": (-2 ** 7, 2 ** 7 - 1), "xs:short": (-2 ** 15, 2 ** 15 - 1), "xs:int": (-2 ** 31, 2 ** 31 - 1),
          "xs:long": (-2 ** 63, 2 ** 63 - 1), "xs:unsignedByte": (0, 2 ** 8 - 1), "xs:unsignedShort": (0, 2 ** 16 - 1),
          "xs:unsignedInt": (0, 2 ** 32 - 1), "xs:unsignedLong": (0, 2 ** 64 - 1), "xs:positiveInteger": (1, None),
          "xs:nonNegativeInteger": (0, None), "xs:negativeInteger": (None, -1), "xs:nonPositiveInteger": (None, 0)}
OTHERS = {"xs:date": date, "xs:dateTime": date_time, "xs:time": time, "xs:gYear": g_year, "xs:gYearMonth": g_year_month, "xs:gMonth": g_month,
          "xs:gMonthDay": g_month_day, "xs:gDay": g_day, "xs:duration": duration, "xs:anyURI": any_uri, "xs:hexBinary": hexbin,
          "xs:base64Binary": base64bin}
TYPES = ["xs:string", "xs:boolean", "xs:decimal", "xs:float", "xs:double"] + list(RANGES) + list(OTHERS)

# ------------------------------------------------------------------- samples
SAMPLES = {
    "num": ["", "0", "1", "-1", "+1", "-0", "+0", "00", "007", "-007", "1.0", ".5", "5.", ".", "+.5", "-5.", "1e5", "1E-5", "1e+5", "1e", "e5", "1_0", " 1", "1 ", "1\n",
            "٣", "inf", "INF", "+INF", "-INF", "NaN", "nan", "Infinity", "0x1", "1,0", "--1", "1-", "127", "128", "-128", "-129", "255", "256", "32767", "32768",
            "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807",
            "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "3.4028234663852886e38",
            "3.4028234663852885e38", "-3.4028234663852886e38", "-3.4028234663852885e38", "1e39", "1e308", "1.7976931348623157e308", "1.7976931348623156e308",
            "-1.7976931348623157e308", "-1.7976931348623156e308", "1e309", "1e-400", "true", "false", "True", "TRUE"],
}
