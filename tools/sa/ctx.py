"""Obligations, violations and evidence of one check run."""
import hashlib
import json
import os
import time
import traceback

from . import nf
from . import terms as tm
from .interp import Dead, Exit, Unsupported
from .world import World


def unknown_in(of):
    for x in of if isinstance(of, (list, tuple)) else (of,):
        for t in x.st.pc if isinstance(x, Exit) else (x,):
            u = isinstance(t, tm.T) and nf.has_unknown(t)
            if u:
                return u
    return None


class Ctx:
    def __init__(self, prop, tier="quick", seed=1, sources=None, root=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.sources, self.root = sources, root
        self.t0 = time.time()
        self.obs = []  # (rule, where, status, detail)
        self.errors = []  # undecided obligations
        self.floors = []  # instance counts below what was confirmed by hand
        self.functions = set()
        self.files = set()
        self.exits = 0
        self.events = 0
        self.nodes = 0
        self.notes = []
        self.counts = {}
        self.samples = []
        self._worlds = {}
        self._recent = []  # worlds of the current case
        self.loop_no, self.loop_count = 0, 1

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------ analysis
    def world(self):
        kw = {"root": self.root} if self.root else {}
        W = World(self.sources, **kw)
        self._worlds[id(W)] = W
        self._recent.append(W)
        return W

    def case(self, name, f, *args):
        """run one analysis case; what the engine cannot interpret is an error
        of the check, not a pass"""
        outer, self._recent = self._recent, []
        try:
            return f(*args)
        except Unsupported as e:
            self.errors.append("%s: cannot analyse: %s" % (name, e))
        except Dead:
            self.errors.append("%s: analysis state lost" % name)
        except RecursionError as e:
            self.errors.append("%s: recursion limit" % name)
        except Exception as e:  # a bug of the engine must not look like a pass
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.errors.append("%s: internal error %s: %s at %s:%s" % (name, type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
        finally:
            self._recent = outer
            self.absorb()

    def absorb(self):
        for W in self._worlds.values():
            I = W.I
            for e in I.events:
                if e.kind == "call":
                    self.functions.add(e.func)
            self.events += len(I.events)
            self.files |= I.consulted
            self.nodes += I.nodecount
            I.nodecount = 0
        self._worlds = {k: w for k, w in self._worlds.items() if False}

    def ob(self, rule, where, ok, detail="", site="", of=()):
        """one obligation: ok True -> discharged, falsy -> violated; `of` is
        what it was judged from (terms, exits): where these contain results of
        operations the library model does not know, nothing is decided; False:
        the construct itself is the violation"""
        opaque = not ok and of is not False and (getattr(ok, "opaque", None) or unknown_in(of) or self.met_unknown())
        if opaque:
            self.errors.append("%s (%s): not understood: %s" % (rule, where, opaque))
            return False
        d = detail
        if ok is not True and not detail:
            d = str(ok)
        elif ok is not True and not isinstance(ok, bool) and ok is not None:
            d = "%s: %s" % (detail, ok)
        self.obs.append((rule, where, "ok" if ok is True or ok == True else "violated", d, site))
        return bool(ok)

    def met_unknown(self):
        """a library function without a model was called on the way: what it
        returned may be behind whatever looks wrong"""
        return next(("call of %s" % p for W in self._recent for p in W.I.unknown_calls), None)

    def bad(self, rule, where, detail, site="", of=()):
        return self.ob(rule, where, False, detail, site, of)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, minimum):
        """the analysis must have met at least so many instances"""
        if self.counts.get(name, 0) < minimum:
            self.floors.append("only %d %s analysed, at least %d expected" % (self.counts.get(name, 0), name, minimum))

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    @property
    def violations(self):
        return [o for o in self.obs if o[2] != "ok"]

    # ------------------------------------------------------------ results
    def evidence(self, info):
        rules = {}
        for r, w, s, d, _ in self.obs:
            x = rules.setdefault(r, {"obligations": 0, "discharged": 0})
            x["obligations"] += 1
            x["discharged"] += s == "ok"
        cov = {
            "explanation": info["explanation"],
            "rule": info["rule"],
            "obligations": len(self.obs),
            "discharged": sum(1 for o in self.obs if o[2] == "ok"),
            "by_rule": rules,
            "functions_analysed": sorted(self.functions),
            "files": sorted(self.files),
            "statements_interpreted": self.nodes,
            "events_examined": self.events,
            "instances": self.counts,
            "samples": [{"rule": r, "where": w, "status": s, "detail": str(d)[:300]} for r, w, s, d, _ in self.obs[:8]],
            "trusted_base": info.get("trusted", TRUSTED),
        }
        if self.notes:
            cov["notes"] = self.notes
        if self.errors:
            cov["undecided"] = self.errors
        if self.floors:
            cov["below_expected_instances"] = self.floors
        return {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": info.get("level", "other"),
            "coverage": cov, "assumptions": info.get("assumptions", []) + ASSUME,
            "wall_s": round(time.time() - self.t0, 3), "violations": len(self.violations),
        }


TRUSTED = [
    "CPython's ast module (parsing of the source under analysis)",
    "the abstract semantics of Python and of the numpy/pint/pandas/scmdata operations in tools/sa/interp.py and tools/sa/lib.py",
    "the algebraic normal form in tools/sa/nf.py (sympy's polynomial rings)",
]
ASSUME = [
    "real arithmetic: floating point rounding is not modelled",
    "units are multiplicative (no offset temperature scales)",
    "the code is not modified from outside while it runs (single thread, no monkey-patching by callers)",
]


def fingerprint(prop, o):
    return hashlib.sha1(("%s|%s|%s" % (prop, o[0], o[1])).encode()).hexdigest()[:12]
