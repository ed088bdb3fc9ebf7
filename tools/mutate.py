"""tools/mutate.py FILE[,FILE] [max]: mutate plantable source files, keep mutants that pass the tests,
run the checks of the properties anchored there, list the survivors (a search for blind spots; not a check)."""
import ast, copy, json, os, random, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {"data_types": ["C13", "C15", "C26", "C14"], "reflect": ["C27", "C07", "C05", "C24", "C10"], "result": ["C01", "C02", "C03"], "http": ["C21"], "opc": ["C16", "C17", "C18"], "file": ["C18", "C03"],
          "config": ["C20"], "api": ["C23", "C20", "C04"], "__main__": ["C04"]}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    out = []
    def emit(desc, node, fn):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[nodes.index(node)]
        fn(n)
        try:
            s = ast.unparse(ast.fix_missing_locations(t))
            compile(s, "x", "exec")
        except Exception: return
        out.append((f"{getattr(node, 'lineno', 0)}: {desc}", s))
    base = ast.unparse(tree)
    doc = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): doc.add(id(n.body[0].value))
        if isinstance(n, (ast.FunctionDef,)):
            for a in ast.walk(n.args):
                if isinstance(a, ast.arg) and a.annotation is not None:
                    for x in ast.walk(a.annotation): doc.add(id(x))
            if n.returns is not None:
                for x in ast.walk(n.returns): doc.add(id(x))
    for n in nodes:
        if id(n) in doc: continue
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for k in CMP.get(type(o), []):
                    emit(f"{ast.unparse(n)}: op -> {k.__name__}", n, lambda m, i=i, k=k: m.ops.__setitem__(i, k()))
        if isinstance(n, ast.BoolOp):
            emit(f"{ast.unparse(n)[:60]}: and/or", n, lambda m: setattr(m, "op", ast.And() if isinstance(m.op, ast.Or) else ast.Or()))
            for i in range(len(n.values)): emit(f"{ast.unparse(n)[:60]}: drop {i}", n, lambda m, i=i: m.values.pop(i))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): emit(f"{ast.unparse(n)[:60]}: drop not", n, lambda m: (setattr(m, "op", ast.Not()), setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand))))
        if isinstance(n, ast.If): emit(f"if {ast.unparse(n.test)[:60]}: negate", n, lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
        if isinstance(n, ast.If) : emit(f"if {ast.unparse(n.test)[:60]}: false", n, lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool): emit(f"const {v}", n, lambda m: setattr(m, "value", not m.value))
            elif isinstance(v, int):
                for d in (1, -1): emit(f"const {v} {d:+}", n, lambda m, d=d: setattr(m, "value", m.value + d))
            elif isinstance(v, str) and v and len(v) < 80:
                emit(f"str {v[:40]!r} -> +x", n, lambda m: setattr(m, "value", m.value + "x"))
                emit(f"str {v[:40]!r} -> cut", n, lambda m: setattr(m, "value", m.value[:-1]))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)): emit(f"{ast.unparse(n)[:60]}: swap", n, lambda m: setattr(m, "op", ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()))
        if isinstance(n, ast.Slice):
            if n.lower is not None: emit(f"slice {ast.unparse(n)}: no lower", n, lambda m: setattr(m, "lower", None))
            if n.upper is not None: emit(f"slice {ast.unparse(n)}: no upper", n, lambda m: setattr(m, "upper", None))
        if isinstance(n, ast.Call):
            for i in range(len(n.keywords)): emit(f"{ast.unparse(n)[:60]}: drop kw {i}", n, lambda m, i=i: m.keywords.pop(i))
            if n.args and isinstance(n.func, ast.Attribute):
                emit(f"{ast.unparse(n)[:60]}: drop arg", n, lambda m: m.args.pop())
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lower", "rstrip", "lstrip", "copy", "keys"):
                emit(f"{ast.unparse(n)[:60]}: drop call", n, lambda m: (setattr(m, "args", []), setattr(m, "func", ast.Lambda(ast.arguments([], [], None, [], [], None, []), m.func.value))))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("fullmatch", "match", "search"):
                for k in ("match", "search", "fullmatch"):
                    if k != n.func.attr: emit(f"{ast.unparse(n)[:60]}: {k}", n, lambda m, k=k: setattr(m.func, "attr", k))
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Return, ast.Assert)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        def rm(m, f=f, i=i):
                            getattr(m, f)[i] = ast.Pass()
                        emit(f"{s.lineno}: remove {ast.unparse(s)[:70]}", n, rm)
    seen, uniq = {base}, []
    for d, s in out:
        if s not in seen: seen.add(s); uniq.append((d, s))
    return uniq


def prepare(i):
    os.makedirs("/tmp/mut", exist_ok=True)
    w, v = f"/tmp/mut/r{i}", f"/tmp/mut/v{i}"
    for d in (w, v): shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    subprocess.run(["cp", "-a", V, v], check=True)


def run(job):
    i, path, desc, src, checks = job
    w, v = f"/tmp/mut/r{i}", f"/tmp/mut/v{i}"
    p = os.path.join(w, path)
    orig = open(os.path.join("/repo", path)).read()
    open(p, "w").write(src)
    env = {"PATH": "/opt/venv/bin:" + os.environ["PATH"], "HOME": "/root", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONUTF8": "1", "PYTHONPATH": w}
    try:
        try:
            pt = subprocess.run("/opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --timeout=60 test 2>&1 | tail -3; /opt/venv/bin/python bin/check_readme.py >/dev/null 2>&1 && echo README || echo NOREADME", shell=True, cwd=w, env=env, capture_output=True, text=True, timeout=120).stdout
        except subprocess.TimeoutExpired: return desc, "tests"
        if "86 passed" not in pt or not pt.strip().endswith("\nREADME"): return desc, "tests"
        slow = ""
        for c in checks:
            try:
                r = subprocess.run(["python3-vt", "check.py", c], cwd=v, env={**os.environ, "VERIF_REPO": w}, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired: slow = f" (timeout {c})"; continue
            if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout:
                nofail = "no-failing-input-found" in r.stdout
                return desc, f"{c}{' (no input)' if nofail else ''}"
            if r.returncode not in (0, 1): slow += f" (rc {r.returncode} {c})"
        return desc, "SURVIVED" + slow
    finally:
        open(p, "w").write(orig)


def main():
    files = sys.argv[1].split(",")
    mx = int(sys.argv[2]) if len(sys.argv) > 2 else 10 ** 9
    n = int(os.environ.get("W", "7"))
    for i in range(n): prepare(i)
    import queue
    free = queue.Queue()
    for i in range(n): free.put(i)
    def go(path, d, s, checks):
        i = free.get()
        try: return path, run((i, path, d, s, checks))
        finally: free.put(i)
    with cf.ThreadPoolExecutor(n) as ex:
        futs = []
        for f in files:
            path = f"aas_test_engines/{f}.py"
            ms = mutants(open(os.path.join("/repo", path)).read())
            random.Random(1).shuffle(ms)
            checks = [c for c in CHECKS[f] if os.path.exists(f"{V}/contracts/{c.lower()}.py")]
            print(path, len(ms), "mutants", flush=True)
            for d, s in ms[:mx]: futs.append(ex.submit(go, path, d, s, checks))
        for fu in cf.as_completed(futs):
            path, (d, r) = fu.result()
            print(f"{r:22} {path} {d}", flush=True)
    shutil.rmtree("/tmp/mut", ignore_errors=True)


main()
