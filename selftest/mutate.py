"""Systematic mutants of the package: which are reported by no check?

usage: python3-vt selftest/mutate.py [file-substring] [first] [count]
Prints one line per mutant that no check reports (with the undecided ones
marked); those are read by hand: equivalent, or a gap."""
import ast
import concurrent.futures as cf
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SRC = "/repo/src/openscm_twolayermodel"
FILES = ["base.py", "two_layer_model.py", "impulse_response_model.py", "utils.py", "errors.py", "constants.py", "__init__.py"]
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}


def mutants(src):
    """(description, new source)"""
    tree = ast.parse(src)
    for i, n in enumerate(list(ast.walk(tree))):
        for what, f in variants(n):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            if f(m, t) is False:
                continue
            ast.fix_missing_locations(t)
            try:
                yield "%s:%d %s" % (type(n).__name__, getattr(n, "lineno", 0), what), ast.unparse(t)
            except Exception:
                continue


def replace(t, old, new):
    for p in ast.walk(t):
        for k, v in ast.iter_fields(p):
            if v is old:
                setattr(p, k, new)
                return True
            if isinstance(v, list):
                for j, x in enumerate(v):
                    if x is old:
                        v[j] = new
                        return True
    return False


def variants(n):
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
        yield "op", lambda m, t: setattr(m, "op", BIN[type(m.op)]())
        if isinstance(n.op, (ast.Sub, ast.Div)):
            def swap(m, t):
                m.left, m.right = m.right, m.left
            yield "swap operands", swap
    if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
        yield "compare", lambda m, t: m.ops.__setitem__(0, CMP[type(m.ops[0])]())
    if isinstance(n, ast.BoolOp):
        yield "and/or", lambda m, t: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())
    if isinstance(n, ast.UnaryOp):
        yield "drop unary", lambda m, t: replace(t, m, m.operand)
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        yield "constant+1", lambda m, t: setattr(m, "value", m.value + 1)
        yield "constant*1.001", lambda m, t: setattr(m, "value", m.value * 1.001) if isinstance(m.value, float) else False
    if isinstance(n, ast.Constant) and isinstance(n.value, bool):
        yield "bool", lambda m, t: setattr(m, "value", not m.value)
    if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 40 and "\n" not in n.value:
        yield "string %r" % n.value, lambda m, t: setattr(m, "value", m.value + "x")
    if isinstance(n, (ast.If, ast.IfExp)):
        yield "if True", lambda m, t: setattr(m, "test", ast.Constant(True))
        yield "if False", lambda m, t: setattr(m, "test", ast.Constant(False))
    if isinstance(n, ast.Call):
        if len(n.args) >= 2:
            for j in range(len(n.args) - 1):
                def sw(m, t, j=j):
                    m.args[j], m.args[j + 1] = m.args[j + 1], m.args[j]
                yield "swap args %d" % j, sw
        for j in range(len(n.keywords)):
            yield "drop keyword %s" % n.keywords[j].arg, lambda m, t, j=j: m.keywords.pop(j) and None
        if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
            yield "drop call .%s()" % n.func.attr, lambda m, t: replace(t, m, m.func.value)
        if len(n.args) == 1 and not n.keywords:
            yield "call -> its argument", lambda m, t: replace(t, m, m.args[0])
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
        for a, b in (("_temp_upper_mag", "_temp_lower_mag"), ("_temp1_mag", "_temp2_mag"), ("_q1_mag", "_q2_mag"), ("_d1_mag", "_d2_mag"), ("q1", "q2"), ("d1", "d2"), ("du", "dl"), ("lambda0", "eta"), ("_lambda0_mag", "_eta_mag"), ("_heat_capacity_upper_mag", "_heat_capacity_lower_mag"), ("_temp1_unit", "_rndt_unit"), ("_temp_upper_unit", "_rndt_unit"), ("heat_capacity_upper", "heat_capacity_lower"), ("_du_unit", "_dl_unit"), ("_erf_unit", "_delta_t_unit")):
            for x, y in ((a, b), (b, a)):
                if n.attr == x:
                    yield "%s -> %s" % (x, y), lambda m, t, y=y: setattr(m, "attr", y)
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
        for a, b in (("t_upper", "t_lower"), ("q", "d"), ("t1", "t2"), ("eta", "efficacy"), ("C", "C_D"), ("tau1", "tau2"), ("phi1", "phi2"), ("d1", "d2"), ("a1", "a2"), ("row", "row_no_nan"), ("lambda0", "lambda_now")):
            for x, y in ((a, b), (b, a)):
                if n.id == x:
                    yield "%s -> %s" % (x, y), lambda m, t, y=y: setattr(m, "id", y)
    for field in ("body", "orelse", "finalbody"):
        b = getattr(n, field, None)
        if isinstance(b, list):
            for j, s in enumerate(b):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    def drop(m, t, field=field, j=j):
                        getattr(m, field)[j] = ast.Pass()
                    yield "drop line %d" % s.lineno, drop
            for j in range(len(b) - 1):
                s, u = b[j], b[j + 1]
                if all(isinstance(v, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(v, ast.Expr) and isinstance(v.value, ast.Constant)) for v in (s, u)) and not isinstance(n, (ast.Module, ast.ClassDef)):
                    def xch(m, t, field=field, j=j):
                        l = getattr(m, field)
                        l[j], l[j + 1] = l[j + 1], l[j]
                    yield "exchange lines %d %d" % (s.lineno, u.lineno), xch


def one(args):
    f, what, text, props = args
    d = tempfile.mkdtemp(prefix="mutate-")
    try:
        root = os.path.join(d, "src")
        shutil.copytree("/repo/src", root)
        open(os.path.join(root, "openscm_twolayermodel", f), "w").write(text)
        out = {}
        for p in props:
            r = subprocess.run(["timeout", "300", "python3-vt", os.path.join(VERIF, "tools", "check.py"), p, "--root", root, "--evidence", os.path.join(d, "ev")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            und = "UNDECIDED" in r.stdout or "INCOMPLETE" in r.stdout
            out[p] = "V" if r.returncode == 1 else "?" if und or r.returncode else "."
            if r.returncode == 1:
                break
        return f, what, out
    finally:
        shutil.rmtree(d)


ORDER = ["C06", "C08", "C09", "C07", "C15", "C16", "C01", "C24", "C22", "C20", "C21", "C23", "C30", "C29", "C11", "C13", "C14", "C17", "C18", "C25", "C10", "C27", "C05", "C04", "C12", "C03", "C02", "C26", "C19", "C28", "C31", "C32", "C33", "C35"]


def main():
    sub = sys.argv[1] if len(sys.argv) > 1 else ""
    first = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    count = int(sys.argv[3]) if len(sys.argv) > 3 else 10**6
    jobs = []
    for f in FILES:
        if sub in f:
            src = open(os.path.join(SRC, f)).read()
            for what, text in mutants(src):
                jobs.append((f, what, text, ORDER))
    print("%d mutants" % len(jobs), flush=True)
    jobs = jobs[first:first + count]
    n = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for f, what, out in ex.map(one, jobs):
            if "V" not in out.values():
                n += 1
                q = [p for p, v in out.items() if v == "?"]
                print("NOT REPORTED %s %s%s" % (f, what, " undecided: " + ",".join(q) if q else ""), flush=True)
    print("%d of %d not reported" % (n, len(jobs)))


main()
