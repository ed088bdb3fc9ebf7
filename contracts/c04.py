"""C04: command line."""
import argparse, contextlib, io, itertools, json, os, sys, tempfile
import z3
from pyvc.spec import check
from pyvc.values import *
from pyvc.tds import *
from pyvc.driver import Obligation
from pyvc.engine import Undecided, zi
from aas_test_engines import __main__ as M, api, config, file as F, http
from aas_test_engines.result import AasTestResult, Level
from contracts.c21 import transmit, wire
from contracts.support import host_of, path_of
from fences.core.util import ConfusionMatrix

SUITES = list(api.supported_versions()[api.latest_version()])


class Patch:
    """replace functions of the package wherever they are bound; undone on exit"""
    def __init__(self, *pairs): self.pairs, self.undo = pairs, []
    def __enter__(self):
        for old, new in self.pairs:
            for m in list(sys.modules.values()):
                if getattr(m, "__name__", "").split(".")[0] not in ("aas_test_engines", "requests"): continue
                for n, v in list(vars(m).items()):
                    if v is old:
                        self.undo.append((m, n, v))
                        setattr(m, n, new)
    def __exit__(self, *a):
        for m, n, v in self.undo: setattr(m, n, v)


def status(code):
    """what the operating system sees of sys.exit(code)"""
    if code is None: return 0
    if isinstance(code, str): return 1
    return code % 256


def run(argv):
    """exit status of the command (None: returned), what it printed"""
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["aas_test_engines"] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            M.main()
        return 0, out.getvalue()
    except SystemExit as e:
        return status(e.code), out.getvalue()
    finally:
        sys.argv = old


def failed(argv):
    """the command ends with a non-zero status (an uncaught error does, too)"""
    try: return run(argv)[0] != 0
    except Exception: return True


def as_result(level, n=1):
    """a result whose verdict is that of level, with n details (n < 0: the level is its own, the -n-1 details are informational)"""
    if n < 0:
        r = AasTestResult("checked", level)
        for _ in range(-n - 1): r.append(AasTestResult("detail", Level.INFO))
        return r
    r = AasTestResult("checked", Level.INFO)
    for _ in range(n): r.append(AasTestResult("detail", level))
    return r


def h_file(fmt, out, model_type, level, positional_last, n=1):
    calls = []
    def stub(kind):
        def f(file, *a, **k):
            calls.append((kind, file.read(), dict(zip(["version", "model_type"], a), **k).get("model_type", "Environment")))
            return as_result(level, n)
        return f
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "doc")
        with open(p, "wb") as f: f.write(b"content \xff")
        opts = []
        if fmt is not None: opts += ["--format", fmt]
        if out is not None: opts += ["--output", out]
        if model_type is not None: opts += ["--model_type", model_type]
        argv = ["check_file"] + (opts + [p] if positional_last else [p] + opts)
        with Patch((F.check_aasx_file, stub("aasx")), (F.check_json_file, stub("json")), (F.check_xml_file, stub("xml"))):
            if (fmt or "aasx") == "aasx" and model_type not in (None, "Environment"):
                check("a model type cannot be combined with AASX", failed(argv) and calls == [])
                return
            code, text = run(argv)
    check("the checker of the format, once, with the file and the model type", calls == [(fmt or "aasx", b"content \xff", model_type or "Environment")])
    check("status 0 exactly for a compliant result", (code == 0) == (level in (Level.INFO, Level.WARNING)))
    r = as_result(level, n)
    if out == "json": check("prints the JSON report", json.loads(text) == r.to_dict())
    elif out == "html": check("prints the HTML report", "<html" in text and "checked" in text and ("detail" in text or n in (-1, 0)))
    else: check("prints the text report", text.splitlines() == [l for l in r.to_lines()])


def h_server(server, suite, headers, dry, version, no_verify, flt, prefix, out, level, n=1, more=()):
    from aas_test_engines.test_cases.v3_0 import api as v3
    old, more = dict(v3.available_suites), [m for m in more if m not in v3.available_suites]
    for m in more: v3.available_suites[m] = next(iter(old.values()))
    try: _server(server, suite, headers, dry, version, no_verify, flt, prefix, out, level, n, SUITES + more)
    finally:
        v3.available_suites.clear()
        v3.available_suites.update(old)


def _server(server, suite, headers, dry, version, no_verify, flt, prefix, out, level, n, available):
    calls, sent = [], []
    def execute(client, conf):
        sent.extend(transmit(client, http.Request(path="/pre/x")))
        calls.append(conf)
        return as_result(level, n), ConfusionMatrix()
    argv = ["check_server", server, suite]
    for h in headers: argv += ["--header", h] if len(headers) == 1 else []
    if len(headers) > 1: argv += ["--header"] + headers
    if dry: argv += ["--dry"]
    if version is not None: argv += ["--version", version]
    if no_verify: argv += ["--no-verify"]
    if flt is not None: argv += ["--filter=" + flt]
    if prefix is not None: argv += ["--remove-path-prefix", prefix]
    if out is not None: argv += ["--output", out]
    match = [s for s in available if suite in s]
    with Patch((api.execute_tests, execute)):
        if len(match) != 1 or version not in (None, "3.0") or any(":" not in h for h in headers) or (flt or "").count("~") > 1:
            check("unknown or ambiguous suites, unknown versions, malformed headers and filters fail without running tests", failed(argv) and calls == [])
            return
        code, text = run(argv)
    check("the tests run once", len(calls) == 1)
    conf = calls[0]
    check("on the matching suite", conf.suite == match[0])
    check("with the version", conf.version == (version or api.latest_version()))
    check("dry exactly when requested", bool(conf.dry) == dry)
    names = ["GetSubmodel", "GetAllSubmodels", "PutX", ""]
    sel = lambda f: [True if f is None else bool(f.selects(n)) for n in names]
    check("with the filter", sel(conf.filter) == sel(None if flt is None else config.TestCaseFilter(flt)))
    host = server[:-1] if server.endswith("/") else server
    path = "/pre/x"
    if prefix and (path == prefix or path.startswith(prefix + "/")): path = path[len(prefix):]
    want = {}
    for h in headers: want[h[:h.index(":")].strip()] = h[h.index(":") + 1:].strip()
    _, url, _, hs = wire("get", host + path, None, want)
    check("against the server, with the path prefix removed", sent[0][1] == url)
    check("verifying certificates unless disabled", sent[0][4] == (not no_verify))
    check("with the given headers", dict(sent[0][3]) == dict(hs))
    check("status 0 exactly for a compliant result", (code == 0) == (level in (Level.INFO, Level.WARNING)))
    r = as_result(level, n)
    if out == "json": check("prints the JSON report", json.loads(text) == r.to_dict())
    elif out == "html": check("prints the HTML report", "<html" in text and "checked" in text and ("detail" in text or n in (-1, 0)))
    else: check("prints the text report", text.splitlines() == [l for l in r.to_lines()])


def h_command(argv):
    check("missing and unknown commands fail", failed(argv))


FILE_CASES = [list(x) for x in itertools.product([None, "json", "xml", "aasx"], [None, "text", "json", "html"], [None, "Environment", "Submodel"], list(Level), [True, False])]
FILE_CASES += [["json", out, None, level, True, n] for out in (None, "json", "html") for level in Level for n in (-1, -2, -3, 2, 3, 127, 128, 254, 255, 256, 511, 512)]
HEADERS = ["a:b", "Authorization: Bearer x:y", " k :  v ", "nocolon", "a:", ":v", "X-A:1:2:3", "k:\tv"]


def gen_server(g):
    r = g.r
    s = r.choice(SUITES)
    a = r.randrange(len(s))
    suite = r.choice([s, s[a:r.randint(a, len(s))], s[-r.randint(1, 40):], "SSP-002", "SSP-001", "", "AssetAdministrationShellRepository", "SubmodelRepository", "nope", s.lower(), s.upper(), s + "x", "*", "*" + s, s + "*", "*" + s + "*", " " + s, s + " ", s[:-4] + "?" + s[-3:], "^" + s, s.replace("/", "."), ".*", s[-12:] + "$"]).lstrip("-")  # a leading dash would be an option
    return [host_of(g, ["http://h", "http://h/", "https://a.b:8080/api", "https://a/api/", "http://h//", "http://h/api//"]), suite, [r.choice([h for h in HEADERS if h[:1] != ":" and ":" in h]) if r.random() < 0.95 else "nocolon" for _ in range(r.choice([0, 0, 1, 1, 2, 3]))],
            r.random() < 0.5, r.choice([None, None, None, "3.0", "3.0", "2.0", "3", ""]), r.random() < 0.5,
            r.choice([None, None, "Get*", "~Get*", "Get*~GetAll*", "a~b~c", ""]), path_of(g, [None, None, "", "/pre", "/pre", "/pr", "/pre/", "/pre/x", "/", "/pre/x/", "pre", "/PRE", " /pre"]), r.choice([None, "text", "json", "html"]), r.choice(list(Level)),
            g.size([1, 1, 2, -1, -2, -3]) if r.random() < 0.9 else r.choice([127, 128, 254, 255, 256, 511]), r.choice([[]] * 9 + [["x", "xy"], [s + "2"], [s.upper()]])]


# ----------------------------------------------------------- deductive contracts
def arm(args, level): pass
def seen(): return None
def parse(parser, argv): return None


def h_file_dispatch(argv, path, model_type, fmt, out, level):
    arm({"file": path, "model_type": model_type, "format": fmt, "output": out}, level)
    code = None
    refused = False
    try:
        M.run_file_test(argv)
    except SystemExit as e:
        code = e.code
    except Exception:
        refused = True
    log = seen()
    if fmt == M.InputFormats.aasx and model_type != "Environment":
        check("a model type cannot be combined with AASX", refused and len(log) == 0)
        return
    check("not refused otherwise", not refused)
    check("the checker of the format, once, with the file and the model type",
          log == [(fmt.value, path, "Environment" if fmt == M.InputFormats.aasx else model_type)])
    check("status 0 exactly for a compliant result", (status(code) == 0) == (level.value <= 1))


def h_server_dispatch(argv, server, suite, header, dry, version, no_verify, flt, prefix, out, level, suites):
    arm({"server": server, "suite": suite, "header": header, "dry": dry, "version": version, "no_verify": no_verify, "filter": flt, "remove_path_prefix": prefix, "output": out}, level)
    code = None
    try:
        M.run_api_test(argv)
    except SystemExit as e:
        code = e.code
    log = seen()
    match = [s for s in suites if suite in s]
    if version != "3.0" or len(match) != 1:
        check("unknown or ambiguous suites and unknown versions fail without running tests", len(log) == 0 and status(code) != 0)
        return
    check("the tests run once", len(log) == 1)
    client, conf = log[0]
    check("on the matching suite", conf.suite == match[0])
    check("with the version", conf.version == version)
    check("dry exactly when requested", conf.dry == dry)
    check("with the filter", conf.filter is flt)
    check("against the server", client.host == server)
    check("verifying certificates unless disabled", client.verify == (not no_verify))
    check("removing the path prefix", client.remove_path_prefix == prefix)
    check("with the given headers", client.additional_headers is as_dict(header))
    check("status 0 exactly for a compliant result", (status(code) == 0) == (level.value <= 1))


def as_dict(h): return dict(h)


def h_header(s):
    try:
        k, v = M._parse_header_value(s)
    except argparse.ArgumentTypeError:
        check("a header with a colon is accepted", ":" not in s)
        return
    check("a header without a colon is rejected", ":" in s)
    name, _, value = s.partition(":")
    check("split at the first colon, blanks removed", k == name.strip() and v == value.strip())


def main_setup(eng):
    st = {"args": None, "level": None, "log": []}
    def do_arm(e, a, k):
        d = e.heap[a[0].id]
        st["args"], st["level"], st["log"] = {kk: v for kk, v in d.puts}, a[1], []
    eng.models[arm] = do_arm
    eng.models[seen] = lambda e, a, k: e.new_list(list(st["log"]))
    ns = TAbs("namespace", attrs={n: (lambda e, o, n=n: st["args"][n]) for n in
                                  ["file", "model_type", "format", "output", "server", "suite", "header", "dry", "version", "no_verify", "filter", "remove_path_prefix"]})
    parser = TAbs("parser", methods={"add_argument": lambda e, o, a, k: None, "parse_args": lambda e, o, a, k: SObj(z3.Const("args", U), ns)})
    eng.models[argparse.ArgumentParser] = lambda e, a, k: SObj(z3.Const("parser", U), parser)
    eng.models[argparse.FileType] = lambda e, a, k: Opaque(z3.Const("filetype", U))
    def res(e): return e.call(AasTestResult, ["checked", st["level"]], {})
    def stub(kind):
        def m(e, a, k):
            mt = k.get("model_type", a[2] if len(a) > 2 else "Environment")
            st["log"].append((kind, a[0] if a else k["file"], mt))
            return res(e)
        return m
    eng.models[F.check_aasx_file] = stub("aasx")
    eng.models[F.check_json_file] = stub("json")
    eng.models[F.check_xml_file] = stub("xml")
    def execute(e, a, k):
        st["log"].append((a[0], a[1]))
        return (res(e), Opaque(z3.Const("matrix", U)))
    eng.models[api.execute_tests] = execute
    eng.models[AasTestResult.dump] = lambda e, a, k: None
    eng.models[AasTestResult.to_html] = lambda e, a, k: SStr(e.fresh("html", e.S))
    eng.models[AasTestResult.to_dict] = lambda e, a, k: Opaque(e.fresh("dict", U))
    eng.models[json.dumps] = lambda e, a, k: SStr(e.fresh("json", e.S))
    eng.models[print] = lambda e, a, k: None
    eng.models[sys.stderr.write] = lambda e, a, k: None
    eng.models[sys.stderr.writelines] = lambda e, a, k: None
    def exit_(e, a, k): e.raise_(SystemExit, *a)
    eng.models[sys.exit] = exit_
    eng.models[dict] = lambda e, a, k: Opaque(e.app("as_dict", (a[0].t,), U))
    eng.models[as_dict] = eng.models[dict]


def server_setup(eng):
    main_setup(eng)
    n = z3.Int("suites.n")
    eng.ax.append(n >= 0)
    suites = SList(n, lambda i: SStr(eng.app("suites[]", (zi(i),), eng.S)))
    eng.suites = suites
    eng.models[api.supported_versions] = lambda e, a, k: e.alloc(Dct(None, [("3.0", suites)]))


MODULES = ["aas_test_engines.__main__"]
O = Obligation
S = TStr()
OUT = TEnum(M.OutputFormats)
USES = {"c01": ["ok"]}  # contracts of callees this property rests on

OBLIGATIONS = [
    O("check_file command", h_file, fixed=FILE_CASES, mode="bounded", why="argument parsing is library code; every combination of format, output, model type and verdict with stand-in checkers",
      functions=["aas_test_engines.__main__:main", "aas_test_engines.__main__:run_file_test"]),
    O("check_server command", h_server, gen=gen_server, mode="bounded", samples=3000, why="argument parsing is library code; random option combinations, headers and suite texts with stand-in tests",
      functions=["aas_test_engines.__main__:main", "aas_test_engines.__main__:run_api_test", "aas_test_engines.__main__:_parse_header_value"]),
    O("other commands", h_command, fixed=[[[]], [["nope"]], [["check_file"]], [["check_server"]], [["check_files", "x"]], [["", "x"]]], mode="bounded", why="fixed command lines"),
    O("file dispatch", h_file_dispatch, [("argv", TOpaque()), ("path", TOpaque()), ("model_type", S), ("fmt", TEnum(M.InputFormats)), ("out", OUT), ("level", TEnum(Level))], setup=main_setup,
      concrete=h_file, gen=lambda g: list(g.r.choice(FILE_CASES)), samples=200),
    O("server dispatch", h_server_dispatch, [("argv", TOpaque()), ("server", S), ("suite", S), ("header", TOpaque()), ("dry", TBool()), ("version", S), ("no_verify", TBool()), ("flt", TOpaque()),
                                             ("prefix", S), ("out", OUT), ("level", TEnum(Level)), ("suites", lambda e: e.suites)], setup=server_setup, strings="seq", concrete=h_server, gen=gen_server, samples=200),
    O("header option", h_header, [("s", S)], strings="seq", gen=lambda g: [g.pick(HEADERS) if g.r.random() < 0.5 else "".join(g.r.choice(": ab\t") for _ in range(g.r.randint(0, 6)))]),
]
ASSUMPTIONS = ["argparse parses the declared options as documented (exercised concretely)"]
