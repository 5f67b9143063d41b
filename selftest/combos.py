"""Several behaviour-preserving edits at once: shuffles the GOOD catalogues,
groups entries whose edits still apply one after the other, and runs every
check on each group.

usage: python3-vt selftest/combos.py [seed] [group size] [max groups] [-k: keep the groups' sources in /tmp/combos]"""
import concurrent.futures as cf
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
from run import apply  # noqa: E402

PROPS = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]


def groups(seed, size):
    good = [x for m in ("good", "good2", "good3", "good4", "good5", "good6", "good7") for x in importlib.import_module(m).GOOD]
    random.Random(seed).shuffle(good)
    while good:
        d = tempfile.mkdtemp(prefix="combo-")
        root = os.path.join(d, "src")
        shutil.copytree("/repo/src", root)
        names, props, rest = [], set(PROPS), []
        for x in good:
            if len(names) == size:
                rest.append(x)
                continue
            t = os.path.join(d, "try")
            shutil.copytree(root, t)
            try:
                apply(x[2], t)
                for f, _, _ in [e[:3] for e in x[2]]:
                    compile(open(os.path.join(t, "openscm_twolayermodel", f)).read(), f, "exec")
                ok = True
            except (SystemExit, Exception):
                ok = False
            if ok:
                shutil.rmtree(root)
                os.rename(t, root)
                names.append(x[0])
                props &= set(x[1] or PROPS)
            else:
                shutil.rmtree(t)
                rest.append(x)
        if not names:
            shutil.rmtree(d)
            return
        good = rest
        yield d, names, sorted(props)


def one(job):
    d, names, props = job
    out = []
    for p in props:
        r = subprocess.run(["timeout", "700", "python3-vt", os.path.join(VERIF, "tools", "check.py"), p, "--root", d + "/src", "--evidence", d + "/ev"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode or "UNDECIDED" in r.stdout or "INCOMPLETE" in r.stdout:
            lines = [l for l in r.stdout.splitlines() if "violated:" in l or "UNDECIDED" in l or "INCOMPLETE" in l] or [r.stdout[-200:]]
            out.append((p, r.returncode, lines[0].strip()[:300]))
    return d, names, out


def main():
    a = [x for x in sys.argv[1:] if x != "-k"]
    seed, size, most = [int(a[i]) if len(a) > i else v for i, v in enumerate((1, 3, 1000))]
    jobs = []
    for j in groups(seed, size):
        jobs.append(j)
        if len(jobs) == most:
            break
    n = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for f in cf.as_completed([ex.submit(one, j) for j in jobs]):
            d, names, out = f.result()
            if out:
                n += 1
                print("+".join(names), flush=True)
                for o in out:
                    print("   ", *o, flush=True)
                if "-k" in sys.argv:
                    k = "/tmp/combos/" + "+".join(names)[:150]
                    shutil.rmtree(k, ignore_errors=True)
                    shutil.copytree(d + "/src", k + "/src")
            shutil.rmtree(d)
    print("%d groups, %d not quiet" % (len(jobs), n))


if __name__ == "__main__":
    main()
