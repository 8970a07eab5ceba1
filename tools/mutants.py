"""Developer tool: how many small syntactic changes of vrpy do the experiments notice?

    python tools/mutants.py list                     number of mutants per file
    python tools/mutants.py run [-n N] [-t SECONDS] [-s SEED] [-f FILE] -o OUT

Each mutant is written to a scratch copy of /repo and tried by one process,
round robin over the properties, until a violation shows or its time is over.
The survivors are written to OUT, to be read: many are equivalent, the others
show what the experiments do not reach.  No registered check uses this.
"""
import argparse
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FILES = [
    "vrp.py", "master_solve_pulp.py", "masterproblem.py", "subproblem.py", "subproblem_lp.py", "subproblem_cspy.py",
    "subproblem_greedy.py", "clarke_wright.py", "greedy.py", "schedule.py", "checks.py", "preprocessing.py",
    "hyper_heuristic.py", "restricted_master_heuristics.py",
]
CMP = {
    ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
    ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
}
STR = {"Source": "Sink", "Sink": "Source", "lower": "upper", "upper": "lower", "demand": "collect", "collect": "demand",
       "time": "cost", "cost": "weight", "weight": "cost"}
ATTR = {"G": "_H", "_H": "G", "sub_G": "G", "successors": "predecessors", "predecessors": "successors",
        "vehicle_type": "num_stops", "_max_capacity": "num_stops"}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult}


def is_log(n):
    return "logger" in ast.unparse(n)


def sites(tree):
    """[(path to the node, operator)]"""
    out = []

    def walk(node, path):
        if isinstance(node, ast.stmt) and not isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.While, ast.Try, ast.With)):
            if is_log(node) or isinstance(node, (ast.Import, ast.ImportFrom, ast.Pass)):
                return
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                return
            if isinstance(node, ast.Return):
                pass
            else:
                out.append((path, "delete"))
        if isinstance(node, ast.Raise):
            return
        if isinstance(node, ast.If) or isinstance(node, ast.IfExp):
            out.append((path, "if-true"))
            out.append((path, "if-false"))
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
            out.append((path, "cmp"))
        if isinstance(node, ast.BoolOp):
            out.append((path, "bool"))
            for i in range(len(node.values)):
                out.append((path, "drop%d" % i))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            out.append((path, "not"))
        if isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, ast.Constant) | isinstance(getattr(node.left, "value", None), str):
            out.append((path, "bin"))
        if isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                out.append((path, "flip"))
            elif isinstance(node.value, (int, float)):
                out.append((path, "inc"))
                if node.value:
                    out.append((path, "dec"))
        if isinstance(node, ast.Constant) and node.value in STR:
            out.append((path, "str"))
        if isinstance(node, ast.Subscript) and isinstance(node.slice, (ast.Name, ast.Attribute)):
            out.append((path, "sub0"))
        if isinstance(node, ast.Attribute) and node.attr in ATTR:
            out.append((path, "attr"))
        if isinstance(node, ast.Call) and len(node.args) > 1:
            out.append((path, "swap"))
        if isinstance(node, ast.Tuple) and len(node.elts) == 2:
            out.append((path, "tuple"))
        if isinstance(node, (ast.ListComp, ast.GeneratorExp)) and node.generators[0].ifs:
            out.append((path, "noif"))
        if isinstance(node, ast.Name) and node.id in ("max", "min"):
            out.append((path, "maxmin"))
        for f, v in ast.iter_fields(node):
            if f == "ctx" or isinstance(node, ast.FunctionDef) and f in ("decorator_list", "returns", "args") and f != "args":
                continue
            if isinstance(v, ast.AST):
                walk(v, path + [(f, None)])
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        walk(x, path + [(f, i)])

    walk(tree, [])
    return out


def get(tree, path):
    parent, last = None, None
    node = tree
    for f, i in path:
        parent, last = node, (f, i)
        node = getattr(node, f)
        if i is not None:
            node = node[i]
    return parent, last, node


def put(parent, last, new):
    f, i = last
    if i is None:
        setattr(parent, f, new)
    else:
        getattr(parent, f)[i] = new


def apply(tree, site):
    path, op = site
    tree = copy.deepcopy(tree)
    parent, last, n = get(tree, path)
    line = getattr(n, "lineno", 0)
    before = ast.unparse(n)[:90] if not isinstance(n, ast.If) else "if " + ast.unparse(n.test)[:80]
    if op == "delete":
        put(parent, last, ast.copy_location(ast.Pass(), n))
    elif op in ("if-true", "if-false"):
        n.test = ast.copy_location(ast.Constant(op == "if-true"), n.test)
    elif op == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif op == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif op.startswith("drop"):
        del n.values[int(op[4:])]
        if len(n.values) == 1:
            put(parent, last, n.values[0])
    elif op == "not":
        put(parent, last, n.operand)
    elif op == "bin":
        n.op = BIN[type(n.op)]()
    elif op == "flip":
        n.value = not n.value
    elif op in ("inc", "dec"):
        d = 1 if op == "inc" else -1
        n.value = n.value + d if isinstance(n.value, int) else n.value * (10 if d == 1 else 0.1)
    elif op == "str":
        n.value = STR[n.value]
    elif op == "sub0":
        n.slice = ast.Constant(0)
    elif op == "attr":
        n.attr = ATTR[n.attr]
    elif op == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif op == "tuple":
        n.elts.reverse()
    elif op == "noif":
        n.generators[0].ifs = []
    elif op == "maxmin":
        n.id = "min" if n.id == "max" else "max"
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), line, before


def all_mutants(files):
    out = []
    for f in files:
        t = ast.parse(open(os.path.join(REPO, "vrpy", f)).read())
        for s in sites(t):
            out.append((f, s))
    return out


WORKER = r"""
import sys, time, os
t0 = time.perf_counter
from sim import exp, seams
seams.install()
clock = seams._real["perf_counter"]
limit, base = float(sys.argv[1]), int(sys.argv[2])
props = (sys.argv[3].split(",") if sys.argv[3] else ["C%02d" % i for i in range(1, 14)])
a = clock(); i = 0; runs = 0
while clock() - a < limit:
    for p in props:
        s = base + 8 * i
        try:
            sc = exp.generate(p, s)
            r = exp.run(sc, s)
        except BaseException as e:
            print("KILLED", p, s, "harness", repr(e)[:80]); sys.stdout.flush(); os._exit(0)
        runs += 1
        if r.violations and not r.budget:
            print("KILLED", p, s, r.violations[0][0]); sys.stdout.flush(); os._exit(0)
        if clock() - a > limit:
            break
    i += 1
print("SURVIVED", runs)
"""


def name(m):
    f, site = m
    t = ast.parse(open(os.path.join(REPO, "vrpy", f)).read())
    _, line, before = apply(t, site)
    return "%s:%d %s [%s]" % (f, line, site[1], before.replace("\n", " "))


def trial(job):
    (f, site), limit, base, props = job
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree(os.path.join(REPO, "vrpy"), os.path.join(d, "vrpy"), ignore=shutil.ignore_patterns("__pycache__"))
        t = ast.parse(open(os.path.join(REPO, "vrpy", f)).read())
        src, line, before = apply(t, site)
        with open(os.path.join(d, "vrpy", f), "w") as h:
            h.write(src)
        env = dict(os.environ, VERIF_REPO=d, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        try:
            p = subprocess.run([sys.executable, "-c", WORKER, str(limit), str(base), props], cwd=HERE, env=env,
                               capture_output=True, text=True, timeout=limit * 3 + 120)
            res = [l for l in p.stdout.splitlines() if l.startswith(("KILLED", "SURVIVED"))]
            res = res[-1] if res else "DIED " + p.stderr[-100:].replace("\n", " ")
        except subprocess.TimeoutExpired:
            res = "TIMEOUT"
        return "%-10s %s:%d %s [%s]" % (res, f, line, site[1], before.replace("\n", " "))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("-n", type=int, default=100)
    ap.add_argument("-t", type=float, default=60)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-f", action="append")
    ap.add_argument("-i")
    ap.add_argument("-k", action="append", help="only this operator")
    ap.add_argument("-p", default="")
    ap.add_argument("-b", type=int, default=500000)
    ap.add_argument("-o", default="/tmp/mutants.out")
    a = ap.parse_args()
    ms = [m for m in all_mutants(a.f or FILES) if not a.k or m[1][1] in a.k]
    if a.cmd == "list":
        import collections
        print(collections.Counter(f for f, _ in ms), len(ms))
        sys.exit()
    r = random.Random(a.s)
    r.shuffle(ms)
    if a.cmd == "again":
        old = {l.split(None, 2 if l.startswith("SURVIVED") else 1)[-1].strip() for l in open(a.i) if l.startswith(("SURVIVED", "TIMEOUT", "DIED"))}
        ms = [m for m in ms if name(m) in old]
    with open(a.o, "a") as out, ThreadPoolExecutor(a.j) as ex:
        for line in ex.map(trial, [(m, a.t, a.b, a.p) for m in ms[: a.n]]):
            out.write(line + "\n")
            out.flush()
