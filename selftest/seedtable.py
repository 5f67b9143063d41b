"""Which checks report which planted bug: rewrites the table in DESIGN.md."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]


def one(i):
    d = tempfile.mkdtemp(prefix="seedtable-")
    try:
        shutil.copytree("/repo/src", os.path.join(d, "src"))
        subprocess.run(["patch", "-p1", "-s", "-i", os.path.join(VERIF, "seeded", i, "patch.diff")], cwd=d, check=True)
        hit, und = [], []
        for p in PROPS:
            r = subprocess.run(["python3-vt", os.path.join(VERIF, "tools/check.py"), p, "--root", d + "/src", "--evidence", d + "/ev"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            (hit if r.returncode == 1 else und if r.returncode or "UNDECIDED" in r.stdout else []).append(p)
        return i, hit, und
    finally:
        shutil.rmtree(d)


def main():
    ids = sorted(os.listdir(os.path.join(VERIF, "seeded")))
    with cf.ThreadPoolExecutor(8) as ex:
        rows = list(ex.map(one, ids))
    lines = ["| planted bug | needs | reported by |", "|---|---|---|"]
    for i, hit, und in rows:
        m = json.load(open(os.path.join(VERIF, "seeded", i, "meta.json")))
        own = m["property"]
        if own not in hit:
            print("MISSED", i, und)
        lines.append("| %s | %s | %s |" % (i, m["needs"], ", ".join(["**%s**" % p if p == own else p for p in hit]) + (" (undecided: %s)" % ", ".join(und) if und else "")))
    p = os.path.join(VERIF, "DESIGN.md")
    s = open(p).read()
    a, b = "<!-- seeds -->", "<!-- /seeds -->"
    t = a + "\n" + "\n".join(lines) + "\n" + b
    s = s.replace("@SEEDTABLE@", t) if "@SEEDTABLE@" in s else re.sub(re.escape(a) + ".*" + re.escape(b), lambda m: t, s, flags=re.S)
    open(p, "w").write(s)


main()
