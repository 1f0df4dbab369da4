"""Helper used while planting bugs: build and validate a seeded change.

bug(id, prop, needs, breaks, edits, demo) writes /verif/seeded/<id>/ from
(file, old, new) edits after checking that the demo passes on the unchanged
tree and fails on the changed one; `python3 mkbug.py test ID...` runs the
repository's tests on the changed trees.
"""
import json
import os
import shutil
import subprocess
import sys

SEEDED = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "seeded")
SH = '#!/bin/bash\nexport NUMBA_CACHE_DIR=${NUMBA_CACHE_DIR:-/tmp/nbc.$$}\n' \
     'PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
SH = '#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python ' \
     '"$(dirname "$0")/demo.py"\n'


def copy_tree(dst):
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", dst], check=True)


def run_demo(d, cwd):
    p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd,
                       capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-700:]


def bug(bid, prop, needs, breaks, edits, demo, check=True):
    d = os.path.join(SEEDED, bid)
    tree = "/tmp/mk/" + bid
    copy_tree(tree)
    for f, old, new in edits:
        p = os.path.join(tree, "raster_tools", f)
        s = open(p).read()
        if s.count(old) != 1:
            print(bid, "EDIT MATCHES", s.count(old), "times in", f)
            return
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", tree, "diff", "--", "raster_tools"],
                          capture_output=True, text=True).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write(SH)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)
    a, oa = run_demo(d, "/repo")
    b, ob = run_demo(d, tree)
    msg = "clean=%d patched=%d" % (a, b)
    if a != 0:
        msg += " CLEAN-FAILS " + oa
    if b == 0:
        msg += " PATCHED-PASSES"
    else:
        msg += " [" + ob.strip().splitlines()[-1][:100] + "]"
    print(bid, msg)
    if check:
        env = dict(os.environ, RTSA_EVIDENCE="/tmp/ev")
        p = subprocess.run([sys.executable, "-m", "rtsa.check", prop,
                            "--repo", tree], cwd=os.path.dirname(SEEDED),
                           capture_output=True, text=True, env=env)
        print("   check rc", p.returncode, p.stdout[:400], p.stderr[-300:])


def test(bid):
    tree = "/tmp/mk/" + bid
    if not os.path.isdir(tree):
        copy_tree(tree)
        subprocess.run(["git", "-C", tree, "apply",
                        os.path.join(SEEDED, bid, "patch.diff")], check=True)
    w = "/tmp/mk/%s.work" % bid
    os.makedirs(w, exist_ok=True)
    subprocess.run(
        ". /opt/vp/env.sh; cd %s; rm -f tests/data/raster/*.idx; "
        "\"$PY\" -m pytest -q -p no:cacheprovider -n 8 --dist worksteal "
        "--timeout=300 --continue-on-collection-errors --disable-warnings "
        "--basetemp=%s/tmp -o junit_family=xunit2 --junitxml=%s/junit.xml "
        "> %s/log 2>&1; /usr/bin/python3 /opt/vp/results.py %s/out.json "
        "junit:%s/junit.xml" % (tree, w, w, w, w, w), shell=True,
        executable="/bin/bash")
    out = json.load(open(w + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    failed = set(out.get("failed", []))
    passed = set(out.get("passed", []))
    bad = [t for t in base if t not in passed]
    print(bid, "TESTS", "ok" if not bad else "BROKEN %d %s" % (
        len(bad), bad[:4]), flush=True)
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(tree, ignore_errors=True)
    return not bad


if __name__ == "__main__":
    if sys.argv[1] == "test":
        for b in sys.argv[2:]:
            test(b)
