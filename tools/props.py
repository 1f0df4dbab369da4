"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties
T = {}      # id -> (technique, level_note)
NA = {}     # id -> reason


def prop(pid, title, statement, over, qtext, why, files, mech, technique=None,
         note=None, na=None):
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": ["raster_tools/" + f for f in files],
                    "mechanism": [{"name": n, "where": "raster_tools/" + w}
                                  for n, w in mech]},
    })
    if na:
        NA[pid] = na
    else:
        T[pid] = (technique, note)


from props_data import fill  # noqa: E402
fill(prop)

with open(HERE + "/properties.jsonl", "w") as fd:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fd.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q rtsa",
    "checks": [
        {"property": k, "quick_cmd": "python3 -m rtsa.check " + k,
         "thorough_cmd": "VERIF_TIER=thorough python3 -m rtsa.check " + k,
         "technique": t, "level": "other", "level_note": n}
        for k, (t, n) in T.items()],
    "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()],
    "notes": "Static analysis only: every check re-reads the source in /repo; "
             "no check imports or runs raster_tools.",
}
json.dump(man, open(HERE + "/MANIFEST.json", "w"), indent=1)
