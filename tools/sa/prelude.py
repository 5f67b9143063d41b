"""Library classes and functions modelled by equivalent Python source, which
the engine interprets like the package's own."""
import ast

PRELUDE = '''
def repeat(x, times):
    return [x for _ in range(times)]

def pairwise(xs):
    xs = list(xs)
    return list(zip(xs[:-1], xs[1:]))

class SimpleNamespace:
    def __init__(self, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)
'''
NAME = "_sa_prelude"


def call(I, name, args, kwargs, node):
    I.sources.setdefault(NAME, PRELUDE)
    return I.call(I.getattr_(I.load(NAME), name), args, kwargs, node)


def methods(fields, sequence):
    """source of the methods of a record class"""
    tup = "(%s)" % "".join("self.%s, " % f for f in fields)
    d = "{%s}" % ", ".join("%r: self.%s" % (f, f) for f in fields)
    out = ["    def %s(self):\n        return %s\n" % ("_asdict" if sequence else "_sa_asdict", d)]
    out.append("    def %s(self):\n        return %s\n" % ("_sa_astuple", tup))
    out.append("    def %s(self, **changes):\n        d = %s\n        d.update(changes)\n        return type(self)(**d)\n" % ("_replace" if sequence else "_sa_replace", d))
    if sequence:
        out.append("    def __iter__(self):\n        return iter(%s)\n" % tup)
        out.append("    def __getitem__(self, i):\n        return %s[i]\n" % tup)
        out.append("    def __len__(self):\n        return %d\n" % len(fields))
        out.append("    _fields = (%s)\n" % "".join("%r, " % f for f in fields))
    out.append("    def __eq__(self, other):\n        return type(other) is type(self) and %s == other.%s\n" % (tup, "_sa_astuple()"))
    return "\n".join(out)


def namedtuple(I, name, fields, defaults, node):
    n = len(I.sources)
    mod = "%s_%s_%d" % (NAME, name, n)
    plain = len(fields) - len(defaults)
    pars = "".join(", " + f + ("=None" if k >= plain else "") for k, f in enumerate(fields))
    src = "class %s:\n    def __init__(self%s):\n%s\n%s" % (name, pars, "".join("        self.%s = %s\n" % (f, f) for f in fields) or "        pass\n", methods(fields, True))
    if defaults:
        return None
    for m, s in I.sources.items():
        if s == src:
            mod = m
    I.sources[mod] = src
    return I.getattr_(I.load(mod), name)


def record(s, sequence):
    """class statement of a dataclass or NamedTuple with its methods written
    out; None if it uses what is not modelled"""
    fields = []
    body = []
    for b in s.body:
        if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
            if "ClassVar" in ast.unparse(b.annotation):
                body.append(b)
                continue
            if isinstance(b.value, ast.Call) and "field" in ast.unparse(b.value.func):
                return None
            fields.append((b.target.id, b.value))
        else:
            body.append(b)
    names = {b.name for b in body if isinstance(b, ast.FunctionDef)}
    post = "        self.__post_init__()\n" if "__post_init__" in names else ""
    src = "class X:\n    def __init__(self%s):\n%s%s\n%s" % (
        "".join(", " + f + ("=None" if v is not None else "") for f, v in fields),
        "".join("        self.%s = %s\n" % (f, f) for f, v in fields) or "        pass\n", post, methods([f for f, v in fields], sequence))
    new = ast.parse(src).body[0].body
    init = new[0]
    init.args.defaults = [v for f, v in fields if v is not None]
    for n in ast.walk(ast.Module(body=new, type_ignores=[])):
        if hasattr(n, "lineno"):
            n.lineno = n.end_lineno = s.lineno
            n.col_offset = n.end_col_offset = 0
    new = [b for b in new if not (isinstance(b, ast.FunctionDef) and b.name in names)]
    out = ast.ClassDef(name=s.name, bases=[] if sequence else s.bases, keywords=[], body=body + new, decorator_list=[])
    if hasattr(s, "type_params"):
        out.type_params = []
    return ast.copy_location(out, s)
