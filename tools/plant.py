"""plant.py SPEC.py [--notest]: build /verif/seeded/<id>/ from a spec and confirm it in scratch copies of /repo.

A spec defines: id, prop, needs, breaks, edits=[(file, old, new), ...], demo (python source, run with cwd = the tree).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)


def main():
    for path in [a for a in sys.argv[1:] if not a.startswith("--")]:
        ns = {}
        exec(open(path).read(), ns)
        d = os.path.join(VERIF, "seeded", ns["id"])
        tmp = tempfile.mkdtemp(prefix="plant")
        try:
            r = os.path.join(tmp, "repo")
            run(["cp", "-a", "/repo", r], "/")
            run(["git", "checkout", "--", "."], r)
            os.makedirs(d, exist_ok=True)
            open(f"{d}/demo.sh", "w").write(SH)
            os.chmod(f"{d}/demo.sh", 0o755)
            open(f"{d}/demo.py", "w").write(ns["demo"].lstrip())
            json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
            a = run(["bash", f"{d}/demo.sh"], r)
            for f, old, new in ns["edits"]:
                s = open(f"{r}/{f}").read()
                assert s.count(old) >= 1, (f, old)
                open(f"{r}/{f}", "w").write(s.replace(old, new, 1))
            diff = run(["git", "diff"], r).stdout
            open(f"{d}/patch.diff", "w").write(diff)
            b = run(["bash", f"{d}/demo.sh"], r)
            t = None
            if "--notest" not in sys.argv:
                t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests"], r)
                t = t.stdout.strip().splitlines()[-1] if t.stdout else t.stderr[-200:]
            env = dict(os.environ, NQSA_REPO=r)
            caught = run(["python3", "-m", "nqsa.check", ns["prop"]], VERIF, env=env)
            print(f"{ns['id']}: demo clean={a.returncode} patched={b.returncode} tests={t} check {ns['prop']} -> {caught.returncode}")
            if a.returncode:
                print(a.stdout[-500:], a.stderr[-800:])
            if b.returncode == 0:
                print("NOT FAILING", b.stdout[-300:])
            print("   ", (caught.stdout + caught.stderr)[-300:].strip().replace("\n", "\n    ") if caught.returncode != 1 else "\n    ".join(caught.stdout.splitlines()[:3])[:400])
        finally:
            shutil.rmtree(tmp)


main()
