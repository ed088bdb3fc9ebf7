"""tools/probe.py PROBES.py [ids]: apply one-edit changes to scratch copies, run the tests and the named checks (a search for blind spots).
PROBES = [(id, "C01,C02", file, old, new), ...]"""
import os, queue, runpy, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = int(os.environ.get("W", "3"))
S = f"/tmp/probe{os.getpid()}"
free = queue.Queue()
for i in range(N):
    free.put(i)
    os.makedirs(S, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", f"{S}/r{i}"], check=True)
    os.makedirs(f"{S}/v{i}")
    for n in os.listdir(V):
        if n not in (".git", "seeded", "replay"): subprocess.run(["cp", "-a", os.path.join(V, n), f"{S}/v{i}/"], check=True)


def run(p):
    name, checks, f, old, new = p
    i = free.get()
    w, v = f"{S}/r{i}", f"{S}/v{i}"
    path = os.path.join(w, "aas_test_engines", f)
    orig = open(path).read()
    try:
        if orig.count(old) < 1: return name, "edit does not apply"
        open(path, "w").write(orig.replace(old, new))
        env = {"PATH": "/opt/venv/bin:" + os.environ["PATH"], "HOME": "/root", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONUTF8": "1", "PYTHONPATH": w}
        pt = subprocess.run("/opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --timeout=60 test 2>&1 | tail -3; /opt/venv/bin/python bin/check_readme.py >/dev/null 2>&1 && echo README || echo NOREADME", shell=True, cwd=w, env=env, capture_output=True, text=True, timeout=300).stdout
        if "86 passed" not in pt or not pt.strip().endswith("\nREADME"): return name, "fails the tests"
        out = []
        for c in checks.split(","):
            r = subprocess.run(["python3-vt", "check.py", c], cwd=v, env={**os.environ, "VERIF_REPO": w}, capture_output=True, text=True)
            vs = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"{c}:" + (("caught" if any("no-failing" not in l for l in vs) else "caught(no input)") if r.returncode == 1 and vs else f"MISSED rc={r.returncode}"))
        return name, " ".join(out)
    finally:
        open(path, "w").write(orig)
        free.put(i)


ps = runpy.run_path(sys.argv[1])["PROBES"]
ps = [p for p in ps if len(sys.argv) < 3 or p[0] in sys.argv[2:]]
with cf.ThreadPoolExecutor(N) as ex:
    for fu in cf.as_completed([ex.submit(run, p) for p in ps]): print(*fu.result(), flush=True)
shutil.rmtree(S, ignore_errors=True)
