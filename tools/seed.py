"""tools/seed.py SPEC.py  -- turn bug descriptions into seeded/<id>/ after confirming them in a scratch copy.
SPEC.py defines BUGS = [dict(id, property, file, old, new, demo, needs, breaks), ...] (old/new may be lists)."""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SCR = f"/tmp/seedscratch_{os.getpid()}"

def sh(cmd, **kw): return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)

def main(spec):
    for b in runpy.run_path(spec)["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
        shutil.rmtree(SCR, ignore_errors=True)
        sh(["cp", "-a", "/repo", SCR])
        edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
        ok = True
        for f, old, new in edits:
            p = os.path.join(SCR, f)
            s = open(p).read()
            if s.count(old) != 1: print(b["id"], "edit does not apply:", f, s.count(old)); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        d = os.path.join(OUT, b["id"]); os.makedirs(d, exist_ok=True)
        demo = os.path.join(d, "demo.sh")
        open(os.path.join(d, "demo.py"), "w").write(b["demo"])
        open(demo, "w").write('#!/bin/sh\n# cwd: the repository\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(demo, 0o755)
        r0 = sh(["bash", demo], cwd="/repo", timeout=250)
        r1 = sh(["bash", demo], cwd=SCR, timeout=250)
        diff = sh(["git", "-C", SCR, "diff"]).stdout
        pt = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 test 2>&1 | tail -3; /opt/venv/bin/python bin/check_readme.py >/dev/null 2>&1 && echo README || echo NOREADME", cwd=SCR,
                env={"PATH": "/opt/venv/bin:" + os.environ["PATH"], "HOME": "/root", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONUTF8": "1", "PYTHONPATH": SCR}).stdout
        good = r0.returncode == 0 and r1.returncode != 0 and "86 passed" in pt and pt.strip().endswith("\nREADME")
        print(b["id"], "base", r0.returncode, "patched", r1.returncode, pt.strip().splitlines()[-1] if pt.strip() else "?", "OK" if good else "REJECTED")
        if r0.returncode: print(r0.stdout[-600:], r0.stderr[-800:])
        if not good: shutil.rmtree(d); continue
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(SCR, ignore_errors=True)

main(sys.argv[1])
