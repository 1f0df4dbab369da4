"""Try edits of the package against checks (development aid).

A spec file defines M = [(name, [checks], expect, [(file, old, new), ...])];
expect is 1 for a violation, 0 for an edit that keeps the behaviour.
usage: mut.py SPEC [NAME ...]
"""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor


def one(job):
    name, checks, expect, edits = job
    d = "/tmp/mut/%s" % name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/raster_tools", d + "/raster_tools",
                    ignore=shutil.ignore_patterns("__pycache__", "*.so"))
    out = []
    for f, old, new in edits:
        p = d + "/raster_tools/" + f
        s = open(p).read()
        if s.count(old) != 1:
            shutil.rmtree(d)
            return "%-34s SPEC: %d matches in %s of %r" % (
                name, s.count(old), f, old[:60])
        s = s.replace(old, new)
        compile(s, p, "exec")
        open(p, "w").write(s)
    for c in checks:
        r = subprocess.run(
            ["python3", "-m", "rtsa.check", c, "--repo", d], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
            env=dict(os.environ, RTSA_EVIDENCE=d + "/ev"),
            capture_output=True, text=True)
        ok = r.returncode == expect
        first = [x for x in r.stdout.splitlines() if x][:1]
        out.append("%-34s %s %s rc=%d %s" % (
            name, c, "ok  " if ok else "MISS" if expect else "ALARM",
            r.returncode, (first[0][:230] if first else r.stderr[-200:])))
    shutil.rmtree(d)
    return "\n".join(out)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    jobs = [j for j in ns["M"] if not sys.argv[2:] or j[0] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, jobs):
            print(r, flush=True)


if __name__ == "__main__":
    main()
