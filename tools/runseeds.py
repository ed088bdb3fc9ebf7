"""tools/runseeds.py [id...]: apply each seeded bug to a scratch copy, run the check of its property against it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    scr = f"/tmp/rs_{os.getpid()}"
    shutil.rmtree(scr, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", scr], check=True)
    subprocess.run(["git", "-C", scr, "apply", os.path.join(d, "patch.diff")], check=True)
    r = subprocess.run(["python3-vt", "check.py", m["property"]], cwd=V, env={**os.environ, "VERIF_REPO": scr}, capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, m["property"], "rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", v[0].split(" ", 2)[2] if v else "", flush=True)
    shutil.rmtree(scr, ignore_errors=True)
