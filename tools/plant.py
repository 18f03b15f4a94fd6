#!/opt/venv/bin/python
"""
Confirm planted bugs: plant.py SPEC.py [ID ...]

SPEC.py defines BUGS = [dict(id, property, file, old, new, needs, breaks, demo)].
Each is written to seeded/<id>/, applied to /repo, built, tested, demonstrated, checked and undone.
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests():
    sh("bash /opt/vp/test.sh /tmp/plant_t.json")
    d = json.load(open("/tmp/plant_t.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(stable - set(d["passed"]))


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    assert not sh(f"git -C {REPO} status --porcelain").stdout.strip(), "repo not clean"
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(b["demo"])
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        clean = sh(f"bash {d}/demo.sh", cwd=REPO)
        try:
            bad = None
            for file, old, new in edits:
                p = os.path.join(REPO, file)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = f"text occurs {s.count(old)} times in {file}"
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                print(b["id"], "BAD", bad)
                continue
            diff = sh(f"git -C {REPO} diff").stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            broken = sh(f"bash {d}/demo.sh", cwd=REPO)
            build = sh("bash /opt/vp/build.sh")
            check = sh(f"{PY} {ROOT}/check.py {b['property']} --tier quick", cwd=ROOT)
            failed = tests() if not os.environ.get("NOTESTS") else ["(not run)"]
        finally:
            sh(f"git -C {REPO} checkout -- .")
        ok = clean.returncode == 0 and broken.returncode != 0 and build.returncode == 0 and not failed
        caught = check.returncode == 1 and f"VIOLATION property={b['property']}" in check.stdout
        print(b["id"], b["property"], "GOOD" if ok else "BAD", "caught" if caught else f"MISSED rc={check.returncode}")
        if clean.returncode:
            print("   clean demo fails:", clean.stderr[-800:], clean.stdout[-300:])
        if broken.returncode == 0:
            print("   broken demo passes")
        if failed:
            print("   tests:", failed[:4], len(failed))
        if not caught:
            print("   ", check.stdout[-400:], check.stderr[-400:])
        sys.stdout.flush()


main()
