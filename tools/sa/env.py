"""The environment of version discovery: processes, files and strings that may
be anything, and the library calls that can fail."""
from . import terms as tm
from .interp import EXT_EXC, Dead
from .values import NONE, Const, DictO, Gated, InstO, LibV, ListO, Ref, XO

FAIL = {
    "subprocess.Popen": ("builtins.OSError",),
    "subprocess.call": ("builtins.OSError",),
    "subprocess.run": ("builtins.OSError",),
    "subprocess.check_output": ("builtins.OSError", "subprocess.CalledProcessError"),
    "subprocess.check_call": ("builtins.OSError", "subprocess.CalledProcessError"),
    "builtins.open": ("builtins.OSError",),
    "io.open": ("builtins.OSError",),
    "os.listdir": ("builtins.OSError",),
    "os.getcwd": ("builtins.OSError",),
    "os.stat": ("builtins.OSError",),
    "os.readlink": ("builtins.OSError",),
    "importlib.metadata.version": ("importlib.metadata.PackageNotFoundError",),
    "importlib_metadata.version": ("importlib.metadata.PackageNotFoundError",),
    "pkg_resources.get_distribution": ("pkg_resources.DistributionNotFound",),
}
EXTRA_EXC = {
    "subprocess.SubprocessError": ("builtins.Exception",),
    "subprocess.CalledProcessError": ("subprocess.SubprocessError",),
    "subprocess.TimeoutExpired": ("subprocess.SubprocessError",),
    "importlib.metadata.PackageNotFoundError": ("builtins.ModuleNotFoundError",),
    "pkg_resources.DistributionNotFound": ("builtins.Exception",),
}
STRM = {
    "strip", "lstrip", "rstrip", "replace", "lower", "upper", "decode", "encode", "format", "join", "title", "expandtabs",
    "removeprefix", "removesuffix", "group", "read", "readline", "hex",
}
BOOLM = {"startswith", "endswith", "isdigit", "isdecimal", "isalnum", "isalpha"}


class Env:
    """consulted by the engine when set as Interp.env"""

    def __init__(self, I):
        self.I = I
        self.n = 0
        self.failures = []
        EXT_EXC.update(EXTRA_EXC)

    # ----------------------------------------------------------- failures
    def may(self, exc, node, *key):
        """the call may fail, depending on nothing known"""
        I = self.I
        self.n += 1
        site = I.site(node)
        self.failures.append((exc, site))
        c = tm.bopq("fails:%s:%s:%d" % (exc, site, self.n))
        keep = I.st
        I.st = keep.clone()
        I.assume(c)
        e = I.make_exc(exc)
        I.mut(e).attrs["errno"] = tm.opq("errno%d" % self.n)
        I.mut(e).attrs["returncode"] = tm.opq("rc%d" % self.n)
        I.mut(e).attrs["strerror"] = I.alloc(XO("str", tm.opq("strerror%d" % self.n)))
        for a in ("output", "stdout", "stderr", "filename"):
            I.mut(e).attrs[a] = I.alloc(XO("str", tm.opq("%s%d" % (a, self.n))))
        try:
            I.raise_(e, node)
        except Dead:
            pass
        I.st = keep
        I.assume(tm.not_(c))

    def str(self, t):
        return self.I.alloc(XO("str", t))

    def isopq(self, v):
        I = self.I
        return isinstance(v, Ref) and I.isobj(v, XO) or isinstance(v, tm.T) and v.op not in ("num",)

    # -------------------------------------------------------------- calls
    def call(self, path, args, kwargs, node):
        I = self.I
        if path in ("builtins.int", "builtins.str", "builtins.float") and args and isinstance(args[0], Gated):
            return I.lift(args[0], lambda x: I.lib.call(path, [x] + list(args[1:]), kwargs, node))
        if path in FAIL:
            names = list(FAIL[path])
            if path == "subprocess.run" and kwargs.get("check", tm.FALSE) is not tm.FALSE:
                names.append("subprocess.CalledProcessError")
            if "timeout" in kwargs:
                names.append("subprocess.TimeoutExpired")
            for n in names:
                self.may(n, node)
            self.n += 1
            if path == "subprocess.Popen" or path == "subprocess.run":
                pipes = tuple(k for k in ("stdout", "stderr") if kwargs.get(k, NONE) != NONE or kwargs.get("capture_output", tm.FALSE) is tm.TRUE)
                return I.alloc(XO("proc", tm.opq("process%d" % self.n), frozenset(), {"pipes": pipes}))
            if path in ("subprocess.call", "subprocess.check_call"):
                return tm.opq("rc%d" % self.n)
            if path in ("builtins.open", "io.open"):
                return I.alloc(XO("file", tm.opq("file%d" % self.n)))
            return self.str(tm.opq("%s%d" % (path, self.n)))
        if path == "sys.exc_info":
            e = I.curexc[-1] if I.curexc else NONE
            cls = I.obj(e).cls if e != NONE else NONE
            return I.mklist([cls, e, NONE if e == NONE else self.str(tm.opq("traceback"))], "tuple")
        if path in ("re.search", "re.match", "re.fullmatch"):
            t = tm.opq("match", *[I.term_of(a) for a in args])
            return Gated(tm.bopq("matches", t), I.alloc(XO("match", t)), NONE)
        if path.startswith("os.path.") and path.split(".")[-1] in ("realpath", "dirname", "basename", "join", "abspath", "normpath"):
            return self.str(tm.opq(path, *[I.term_of(a) for a in args]))
        if path in ("builtins.str", "builtins.repr") and args and self.isopq(args[0]):
            return self.str(tm.opq("str", I.term_of(args[0])))
        if path == "builtins.int" and args and self.isopq(args[0]):
            return tm.opq("int", I.term_of(args[0]))
        if path == "builtins.print":
            return NONE
        return None

    # ------------------------------------------------------------ methods
    def method(self, recv, name, args, kwargs, node):
        I = self.I
        o = I.obj(recv) if isinstance(recv, Ref) else None
        if isinstance(o, XO):
            t = o.term
        elif isinstance(recv, tm.T) and recv.op in ("opq", "cat"):
            t = recv
        else:
            return None
        kind = o.kind if o is not None else "str"
        at = [I.term_of(a) for a in args]
        if name == "communicate":
            if "timeout" in kwargs:
                self.may("subprocess.TimeoutExpired", node)
            pipes = o.attrs.get("pipes", ()) if o is not None else ("stdout", "stderr")
            return I.mklist([self.str(tm.opq(k, t)) if k in pipes else NONE for k in ("stdout", "stderr")], "tuple")
        if name == "wait" and kind == "proc":
            return tm.opq("attr", t, "returncode")
        if name == "decode":
            errors = kwargs.get("errors", args[1] if len(args) > 1 else Const("strict"))
            lossless = isinstance(args[0], Const) and str(args[0].v).lower().replace("-", "") in ("latin1", "iso88591") if args else False
            if not lossless and not (isinstance(errors, Const) and errors.v in ("replace", "ignore", "backslashreplace", "surrogateescape")):
                self.may("builtins.UnicodeDecodeError", node)
            return self.str(tm.opq("decode", t))
        if name in ("index", "rindex") and args:
            c = tm.or_(*[tm.bopq("truth", tm.opq("m:" + m, t, at[0])) for m in ("endswith", "startswith")] + [tm.bopq("in", at[0], t)])
            I.may_raise(tm.not_(c), "builtins.ValueError", node)
            return tm.opq("m:" + name, t, *at)
        if name in BOOLM:
            return tm.bopq("truth", tm.opq("m:" + name, t, *at))
        if name in STRM:
            return self.str(tm.opq("m:" + name, t, *at))
        if name in ("partition", "rpartition"):
            return I.mklist([self.str(tm.opq("m:" + name, t, *at, tm.num(i))) for i in range(3)], "tuple")
        if name in ("split", "rsplit", "splitlines", "readlines", "groups"):
            return I.alloc(XO("strlist", tm.opq("m:" + name, t, *at)))
        return None

    def item(self, o, j, node):
        if o.kind == "strlist" and isinstance(j, tm.T) and j.op == "num":
            i = int(j.args[0])
            s = tm.show(o.term)
            if s.startswith(("m:splitlines", "m:readlines")) or i not in (0, -1) and not s.startswith("m:groups"):
                self.may("builtins.IndexError", node)
            return self.str(tm.opq("getitem", o.term, j))
        if o.kind == "environ":
            self.may("builtins.KeyError", node)
        return None

    def libitem(self, path, j, node):
        if path == "sys.version_info" and isinstance(j, tm.T) and j.op == "num":
            return tm.num(3) if j.args[0] == 0 else tm.opq("minor version")
        if path == "os.environ":
            self.may("builtins.KeyError", node)
        return None
