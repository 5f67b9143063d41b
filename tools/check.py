"""Static check of one property of openscm-twolayermodel.

usage: python3-vt tools/check.py C01 [--root DIR] [--evidence DIR]
exit 0: every obligation that could be decided holds (one that could not is
printed as UNDECIDED and listed in the evidence); 1: violated; 2: nothing was
decided, or the analysis met fewer instances than the code is known to have"""
import argparse
import json
import os
import signal
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
os.environ.setdefault("PYTHONHASHSEED", "0")

from sa import rules  # noqa: E402
from sa.ctx import Ctx, fingerprint  # noqa: E402

VERIF = os.path.dirname(HERE)


BUDGET = 600  # seconds; what is not decided by then is reported as undecided


class TimeUp(BaseException):
    pass


def time_up(signum, frame):
    raise TimeUp()


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding: property=%s " % prop):
                    rest = line.split(" ", 2)[2].strip()
                    key, _, text = rest.partition(" :: ")
                    out[key.strip()] = text.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--root", default=os.environ.get("SA_ROOT", "/repo/src"))
    ap.add_argument("--evidence", default=os.path.join(VERIF, "evidence"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    info = rules.INFO[prop]
    ctx = Ctx(prop, tier, seed, root=a.root)
    signal.signal(signal.SIGALRM, time_up)
    signal.alarm(int(os.environ.get("SA_BUDGET", BUDGET)))
    try:
        ctx.case(prop, info["check"], ctx)
    except TimeUp:
        ctx.errors.append("%s: stopped after %d s, the rest is undecided" % (prop, BUDGET))
    signal.alarm(0)
    os.makedirs(a.evidence, exist_ok=True)
    ev = os.path.join(a.evidence, prop + ".json")
    known = known_findings(prop)
    viol, listed = [], []
    for o in ctx.violations:
        key = "%s @ %s" % (o[0], o[1])
        (listed if key in known else viol).append(o)
    data = ctx.evidence(info)
    data["violations"] = len(viol)
    with open(ev, "w") as f:
        json.dump(data, f, indent=1)
    for o in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, o[0], known["%s @ %s" % (o[0], o[1])]))
    print("%s: %d obligations, %d discharged, %d violated, %d functions, %d files, %.2f s" % (
        prop, len(ctx.obs), len(ctx.obs) - len(ctx.violations), len(ctx.violations), len(ctx.functions), len(ctx.files), data["wall_s"]))
    if a.v:
        for o in ctx.obs:
            print("  ", o[2], o[0], "|", o[1], "|", o[3])
    for n in ctx.notes:
        print("note:", n)
    if viol:
        rp = os.path.join(a.evidence, "%s.replay.txt" % prop)
        with open(rp, "w") as f:
            f.write("property %s: %d violated obligations\n" % (prop, len(viol)))
            for o in viol:
                f.write("\nrule: %s\nwhere: %s\nfound: %s\nsite: %s\n" % (o[0], o[1], o[3], o[4] or "-"))
            f.write("\nreplay: python3-vt tools/check.py %s\n" % prop)
        for o in viol[:8]:
            print("  violated: %s | %s | %s %s" % (o[0], o[1], str(o[3])[:300], o[4]))
        for e in ctx.errors[:4]:
            print("  also undecided:", e)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, VERIF) if rp.startswith(VERIF) else rp))
        return 1
    errs = list(dict.fromkeys(ctx.errors))
    for e in errs[:12]:
        print("UNDECIDED:", e)
    if len(errs) > 12:
        print("UNDECIDED: and %d more, listed in the evidence" % (len(errs) - 12))
    for e in ctx.floors:
        print("INCOMPLETE:", e)
    if not ctx.obs or (ctx.floors and not ctx.errors):
        print("no verdict")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
