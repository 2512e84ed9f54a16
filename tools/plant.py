"""Development helper: plant.py SPEC.py [ID...] writes seeded/<id>/ from edits, and confirms each one in /repo
(applies it, runs the stable tests and the demonstration, optionally the check, and undoes it)."""
import json
import os
import runpy
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = """#!/bin/sh
# run with cwd = the repository
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests():
    sh("bash /opt/vp/test.sh /tmp/plant_o.json")
    o = json.load(open("/tmp/plant_o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    return o, base


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    assert not sh(f"git -C {REPO} status --porcelain").stdout.strip()
    for b in bugs:
        if only and b["id"] not in only:
            continue
        d = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f)
                s = open(p).read()
                assert s.count(old) == b.get("count", 1), (b["id"], f, s.count(old))
                open(p, "w").write(s.replace(old, new))
            diff = sh(f"git -C {REPO} diff").stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            # do the changed lines come from the original repository?
            mine = []
            for f, old, new in b["edits"]:
                bl = sh(f"git -C {REPO} blame -s HEAD -- {f}").stdout.splitlines()
                base = sh(f"git -C {REPO} rev-list --max-parents=0 HEAD").stdout.strip()[:7]
                src = sh(f"git -C {REPO} show HEAD:{f}").stdout.splitlines()
                import difflib
                cur = open(os.path.join(REPO, f)).read().splitlines()
                for op, i1, i2, j1, j2 in difflib.SequenceMatcher(None, src, cur, autojunk=False).get_opcodes():
                    if op != "equal":
                        for k in range(i1, i2):
                            if not bl[k].lstrip("^").startswith(base[:7]) and base not in bl[k]:
                                mine.append(bl[k])
            open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip())
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            for n, t in b.get("files", {}).items():
                os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                open(os.path.join(d, n), "w").write(t)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            bad = sh(f"bash {d}/demo.sh", cwd=REPO)
            o, base = tests()
            chk = sh(f"{ROOT}/check {b['property']}", cwd=ROOT)
            viol = [l for l in chk.stdout.splitlines() if l.startswith("VIOLATION")]
        finally:
            sh(f"git -C {REPO} checkout -- .")
        good = sh(f"bash {d}/demo.sh", cwd=REPO)
        lost = lost_tests(o, base)
        print(b["id"], "| demo clean rc", good.returncode, "patched rc", bad.returncode, "| stable tests lost", lost, "| check rc", chk.returncode, len(viol), "violations | mine:", mine)
        if good.returncode:
            print(good.stdout[-800:], good.stderr[-800:])
        if bad.returncode:
            print("   demo says:", (bad.stdout + bad.stderr).strip().splitlines()[-1][:300])
        if chk.returncode != 1:
            print("   CHECK:", chk.stdout[-500:], chk.stderr[-800:])
        else:
            print("   check says:", "\n".join(chk.stdout.splitlines()[:2])[:500])
        sys.stdout.flush()


def lost_tests(o, base):
    want = base["stable"] if "stable" in base else base.get("passed", base)
    got = o.get("passed", o)
    return [t for t in want if t not in got]


main()
