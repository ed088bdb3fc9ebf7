"""C14: date and time validators."""
from pyvc.spec import check
from pyvc.tds import TStr
from pyvc.driver import Obligation
from contracts import xsd
from contracts.c13 import harness
from aas_test_engines import data_types as D


def h_utc(s): check("exactly the UTC dateTime texts", bool(D.is_xs_date_time_utc(s)) == xsd.date_time_utc(s))
def h_dt(s): check("exactly the dateTime texts", bool(D.is_xs_date_time(s)) == xsd.date_time(s))
def h_date(s): check("exactly the date texts", bool(D.is_xs_date(s)) == xsd.date(s))


def year(r):
    if r.random() < 0.01: return r.choice(["", "-"]) + r.choice("1234") * 4300 + r.choice(["00", "04", "01", ""])
    y = r.choice([r.randint(0, 9999), r.randint(0, 420), 0, 1, 4, 5, 100, 101, 400, 401, 1900, 1901, 2000, 2001, 2004, 2100, 10000, 12000, 12100, 10001, 100000])
    return r.choice(["", "", "", "-"]) + f"{y:04d}"


def tz(r):
    return r.choice(["", "", "Z", "+00:00", "-00:00", "+14:00", "-14:00", "+14:01", "+13:59", "+15:00", "-09:30", "+1:00", "+0100", "z", "+00:60", "00:00", "\n", "Z\n", " "])


def tm(r):
    return r.choice([f"{r.randint(0, 25):02d}:{r.randint(0, 61):02d}:{r.randint(0, 61):02d}", "24:00:00", "24:00:01", "24:01:00", "00:00:00", "23:59:59"]) + r.choice(["", "", ".0", ".00", ".123", ".", ".x"])


def date(r):
    m = r.choice([2, 2, 2, r.randint(0, 13), r.randint(1, 12)])
    return f"{year(r)}-{m:02d}-{r.choice([1, 28, 29, 30, 31, 32, 0, r.randint(1, 31)]):02d}"


def mutate(r, s):
    if r.random() < 0.8 or not s: return s
    i = r.randrange(len(s))
    return s[:i] + r.choice(["", "0", "1", "-", ":", "T", "Z", "+", "\n", " ", "٣"]) + s[i + r.randint(0, 1):]


def gen(kind):
    def g_(g):
        r = g.r
        k = kind
        if r.random() < 0.05: k = r.choice(["date", "dateTime", "time", "gYear", "gYearMonth", "gMonth", "gMonthDay", "gDay", "duration"])
        if k == "date": s = date(r) + tz(r)
        elif k == "dateTime": s = date(r) + r.choice(["T"] * 9 + ["t", " ", "TT"]) + tm(r) + tz(r)
        elif k == "time": s = tm(r) + tz(r)
        elif k == "gYear": s = year(r) + tz(r)
        elif k == "gYearMonth": s = f"{year(r)}-{r.randint(0, 13):02d}" + tz(r)
        elif k == "gMonth": s = f"--{r.randint(0, 13):02d}" + tz(r)
        elif k == "gMonthDay": s = f"--{r.randint(0, 13):02d}-{r.choice([28, 29, 30, 31, 32, 1, 0]):02d}" + tz(r)
        elif k == "gDay": s = f"---{r.randint(0, 33):02d}" + tz(r)
        else:
            s = r.choice(["", "-", "+"]) + r.choice(["P", "P", "P", ""]) + "".join(f"{r.choice([0, 1, 12, 400])}{u}" for u in "YMD" if r.random() < 0.5)
            if r.random() < 0.6: s += "T" + "".join(f"{r.choice(['0', '1', '1.5', '1.', '.5', '12'])}{u}" for u in "HMS" if r.random() < 0.5)
        return [mutate(r, s)]
    return g_


MODULES = ["aas_test_engines.data_types"]
KINDS = ["date", "dateTime", "time", "gYear", "gYearMonth", "gMonth", "gMonthDay", "gDay", "duration"]
OBLIGATIONS = [Obligation(f"validator of xs:{k}", harness("xs:" + k), [("s", TStr())], gen=gen(k)) for k in KINDS] + [
    Obligation("is_xs_date_time_utc", h_utc, [("s", TStr())], gen=gen("dateTime")),
    Obligation("is_xs_date_time", h_dt, [("s", TStr())], gen=gen("dateTime")),
    Obligation("is_xs_date", h_date, [("s", TStr())], gen=gen("date")),
]
ASSUMPTIONS = ["Decimal(text) and int(Decimal) are exact (documented)"]
