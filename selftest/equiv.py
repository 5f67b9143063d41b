"""Confirm that the GOOD edits pass the package's own tests (fast part).

usage: python3-vt selftest/equiv.py [name-substring]"""
import concurrent.futures as cf, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import good, good2, good3, good4, good5, good6, good7
from run import apply

CODE = "import openscm_twolayermodel as o, sys; assert o.__file__.startswith(sys.argv[1]), o.__file__"


def one(x):
    name, _, edits = x
    d = tempfile.mkdtemp(prefix="equiv-")
    try:
        shutil.copytree("/repo/src", d + "/src")
        shutil.copytree("/repo/tests", d + "/tests")
        for f in ("setup.cfg", "pyproject.toml", "README.rst"):
            if os.path.exists("/repo/" + f):
                shutil.copy("/repo/" + f, d)
        apply(edits, d + "/src")
        env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", CODE, d], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, cwd=d)
        if r.returncode:
            return name, "import: " + r.stdout[-300:]
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--ignore=tests/regression", "--deselect", "tests/unit/test_two_layer_model_unit.py::TestTwoLayerModel::test_heat_capacity_upper_no_setter", "--deselect", "tests/unit/test_two_layer_model_unit.py::TestTwoLayerModel::test_heat_capacity_lower_no_setter", "tests"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, cwd=d)
        bad = [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
        return name, (r.stdout.splitlines() or [""])[-1] + " " + " ".join(bad)[:300]
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    s = sys.argv[1] if len(sys.argv) > 1 else ""
    with cf.ThreadPoolExecutor(8) as ex:
        for n, t in ex.map(one, [g for g in good.GOOD + good2.GOOD + good3.GOOD + good4.GOOD + good5.GOOD + good6.GOOD + good7.GOOD if g[0].startswith(s)]):
            print(n, t)
