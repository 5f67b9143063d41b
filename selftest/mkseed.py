"""Builds and confirms the planted bugs in /verif/seeded from seeds.py.

usage: python3-vt selftest/mkseed.py [id-substring]  (scratch copies under /tmp, removed afterwards)"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seeds

DEMO_SH = '#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)


def one(s):
    id_, prop, needs, breaks, edits, demo = s
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(d, "repo")
        sh(["cp", "-a", "/repo", repo])
        sh(["git", "checkout", "-q", "--", "."], cwd=repo)
        for f, old, new in edits:
            p = os.path.join(repo, "src/openscm_twolayermodel", f)
            t = open(p).read()
            if t.count(old) < 1:
                return id_, "edit does not apply"
            open(p, "w").write(t.replace(old, new, 1))
        patch = sh(["git", "diff"], cwd=repo).stdout
        # it has to change lines of the original repository
        touched = any(old_line_original(repo, f, old, new) for f, old, new in edits)
        out = os.path.join(VERIF, "seeded", id_)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        open(os.path.join(out, "demo.py"), "w").write(demo)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        env = dict(os.environ, PYTHONPATH=os.path.join(repo, "src"))
        demo_dir = os.path.join(d, "demo"); shutil.copytree(out, demo_dir)
        bad = sh(["bash", os.path.join(demo_dir, "demo.sh")], cwd=repo, env=env)
        good = sh(["bash", os.path.join(demo_dir, "demo.sh")], cwd="/repo")
        for name in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + name).read().replace("/repo", repo)
            open(os.path.join(d, name), "w").write(t)
        b = sh(["bash", os.path.join(d, "build.sh")], env=env)
        t = sh(["bash", os.path.join(d, "test.sh"), os.path.join(d, "o.json")], env=env)
        try:
            o = json.load(open(os.path.join(d, "o.json")))
        except Exception:
            o = {}
        base = json.load(open("/opt/vp/BASELINE.json"))
        chk = sh(["python3-vt", os.path.join(VERIF, "tools/check.py"), prop, "--root", os.path.join(repo, "src"), "--evidence", os.path.join(d, "ev")])
        broken = missing(base, o)
        return id_, ("" if touched else "ONLY NEW LINES ") + "demo clean=%d patched=%d build=%d tests_broken=%s check=%d %s" % (good.returncode, bad.returncode, b.returncode, broken[:3], chk.returncode, "" if chk.returncode == 1 else chk.stdout[-300:]) + ("\n" + good.stdout[-400:] if good.returncode else "")
    finally:
        shutil.rmtree(d)


def old_line_original(repo, f, old, new):
    path = "src/openscm_twolayermodel/" + f
    base = sh(["git", "show", "647698f:" + path], cwd=repo).stdout.splitlines()
    gone = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
    return any(l in base or any(l in b for b in base) for l in gone)


def missing(base, o):
    want = set(names(base))
    return sorted(want - set(names(o)))


def names(o):
    for k in ("stable", "stable_tests", "passed", "pass"):
        if k in o:
            return o[k]
    return []


if __name__ == "__main__":
    sub = sys.argv[1] if len(sys.argv) > 1 else ""
    todo = [s for s in seeds.SEEDS if sub in s[0]]
    with cf.ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, todo):
            print(*r, flush=True)
