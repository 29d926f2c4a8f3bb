"""
Plants a bug: usage plant.py SPEC.py...

A spec file defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (source of a program that runs
with the repository as its current directory and fails if the property is broken). Writes /verif/seeded/<ID>/ once the
bug has been confirmed in a scratch copy: it compiles, passes the stable tests, and the demo tells it apart.
Then reports which check catches it.
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = 'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def tests(repo: str) -> set[str]:
    env = dict(os.environ, TEST_INTEGRATION="0", TEST_POSTGRESQL="1", TEST_MYSQL="1", TEST_ORACLE="1", TEST_MSSQL="1",
               PYTHONPATH=repo, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-rA", "tests"],
                       cwd=repo, env=env, capture_output=True, text=True)
    return {line.split()[1] for line in r.stdout.splitlines() if line.startswith("PASSED")}


def demo(repo: str, folder: str) -> int:
    r = subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300)
    return r.returncode, r.stdout + r.stderr


def plant(spec: str, check: bool) -> None:
    s = runpy.run_path(spec)
    work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    repo = os.path.join(work, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        folder = os.path.join(work, s["ID"])
        os.makedirs(folder)
        with open(os.path.join(folder, "demo.py"), "w") as f:
            f.write(s["DEMO"].lstrip("\n"))
        with open(os.path.join(folder, "demo.sh"), "w") as f:
            f.write(SH)
        rc, out = demo(repo, folder)
        if rc != 0:
            print(f"{s['ID']}: demo fails on clean tree\n{out}")
            return
        before = tests(repo)
        for file, old, new in s["EDITS"]:
            p = os.path.join(repo, file)
            text = open(p).read()
            if text.count(old) != 1:
                print(f"{s['ID']}: {text.count(old)} matches in {file}: {old!r}")
                return
            open(p, "w").write(text.replace(old, new))
        diff = subprocess.run(["git", "diff", "--", "pysqlsync"], cwd=repo, capture_output=True, text=True).stdout
        with open(os.path.join(folder, "patch.diff"), "w") as f:
            f.write(diff)
        rc, out = demo(repo, folder)
        if rc == 0:
            print(f"{s['ID']}: demo passes with the bug")
            return
        print(f"{s['ID']}: demo says: {out.strip().splitlines()[-1] if out.strip() else rc}")
        after = tests(repo)
        if before - after:
            print(f"{s['ID']}: tests fail: {sorted(before - after)}")
            return
        with open(os.path.join(folder, "meta.json"), "w") as f:
            json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, f, indent=1)
            f.write("\n")
        dest = os.path.join(ROOT, "seeded", s["ID"])
        if os.path.exists(dest):
            shutil.rmtree(dest)
        shutil.copytree(folder, dest)
        if check:
            for prop in [s["PROPERTY"]] + s.get("ALSO", []):
                if not os.path.exists(os.path.join(ROOT, "mc", "checks", prop.lower() + ".py")):
                    print(f"{s['ID']}: no check {prop} yet")
                    continue
                env = dict(os.environ, VERIF_REPO=repo)
                r = subprocess.run(["bash", os.path.join(ROOT, "run.sh"), prop, "quick"], env=env, capture_output=True, text=True)
                lines = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
                print(f"{s['ID']}: {'CAUGHT' if r.returncode == 1 and lines else 'MISSED'} by {prop} rc={r.returncode} {lines[:1]}")
                if r.returncode not in (0, 1):
                    print((r.stdout + r.stderr)[-2000:])
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    for spec in sys.argv[1:]:
        plant(spec, True)
