"""Positive and negative controls of the checks.

Applies edits to a scratch copy of /repo/src and runs the checks on it:
an entry of BAD must be reported by the properties it names, an entry of
GOOD must leave every check (or those it names) quiet.

usage: python3-vt selftest/run.py [bad|good] [name-substring] [-p C01,C02] [-m catalogue]"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
PKG = "openscm_twolayermodel"


def apply(edits, root):
    for e in edits:
        f, old, new = e[:3]
        p = os.path.join(root, PKG, f)
        s = open(p).read() if os.path.exists(p) else ""
        if callable(old):
            s2 = old(s)
        elif old is None:
            s2 = new
        else:
            if old not in s:
                raise SystemExit("edit does not apply: %s: %r" % (f, old[:80]))
            s2 = s.replace(old, new) if len(e) > 3 and e[3] == "all" else s.replace(old, new, 1)
        open(p, "w").write(s2)


def one(args):
    name, edits, props = args
    d = tempfile.mkdtemp(prefix="selftest-")
    try:
        root = os.path.join(d, "src")
        shutil.copytree("/repo/src", root)
        apply(edits, root)
        out = {}
        for p in props:
            r = subprocess.run(["timeout", "400", "python3-vt", os.path.join(VERIF, "tools", "check.py"), p, "--root", root, "--evidence", os.path.join(d, "ev")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            out[p] = (r.returncode, r.stdout)
        return name, out
    finally:
        shutil.rmtree(d)


def main():
    import json
    kind = sys.argv[1] if len(sys.argv) > 1 else "all"
    sub = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else ""
    sel = sys.argv[sys.argv.index("-p") + 1].split(",") if "-p" in sys.argv else None
    allp = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
    jobs = []
    import bad as badm
    import bad2
    import bad3, bad4, bad5, bad6, bad7, bad8
    import good as goodm
    import good2
    import good3, good4, good5, good6, good7
    mod = sys.argv[sys.argv.index("-m") + 1] if "-m" in sys.argv else None
    if kind in ("bad", "all"):
        for m in (badm, bad2, bad3, bad4, bad5, bad6, bad7, bad8):
            for name, props, edits in m.BAD if mod in (None, m.__name__) else ():
              if sub in name:
                jobs.append(("bad:" + name, edits, props))
    if kind in ("good", "all"):
        for m in (goodm, good2, good3, good4, good5, good6, good7):
            for name, props, edits in m.GOOD if mod in (None, m.__name__) else ():
              if sub in name:
                jobs.append(("good:" + name, edits, [p for p in (props or allp) if not sel or p in sel]))
    fails = 0
    # one task per edit and property, long lists of properties split
    tasks = [(n, e, ps[k:k + 4]) for n, e, ps in jobs for k in range(0, len(ps), 4)]
    with cf.ThreadPoolExecutor(8) as ex:
        for f in cf.as_completed([ex.submit(one, t) for t in tasks]):
            name, out = f.result()
            for p, (rc, t) in out.items():
                last = (t.strip().splitlines() or ["no output"])[-1]
                if name.startswith("bad"):
                    if rc != 1:
                        fails += 1
                        print("MISSED %s by %s (rc %d): %s" % (name, p, rc, last[:300]), flush=True)
                elif rc or "UNDECIDED" in t or "INCOMPLETE" in t:
                    fails += 1
                    lines = [l for l in t.splitlines() if "violated:" in l or "UNDECIDED" in l] or [last]
                    print("%s %s by %s (rc %d): %s" % ("ALARM" if rc == 1 else "NOANSWER", name, p, rc, lines[0][:400]), flush=True)
    print("%d jobs, %d failures" % (len(jobs), fails))


if __name__ == "__main__":
    main()
