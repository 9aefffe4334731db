"""Development only: systematic mutants of the repository in scratch copies; which ones do the checks not report?

mutate.py OUT.jsonl [--jobs N] [--files SUBSTRING] [--sample P] [--all-props]"""
import argparse, ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

CHECKS = {
    "foundations/conceptual_item.py": "C01 C02 C04 C03 C05 C06 C08 C12",
    "foundations/abstract_items.py": "C02 C07 C17",
    "foundations/clock.py": "C05 C07 C26",
    "foundations/graph_monad.py": "C10 C11",
    "foundations/identification/identity_generator.py": "C07",
    "foundations/hierarchical_traversal_strategies.py": "C10 C14 C25 C28",
    "foundations/hypergraph_traversal_strategies.py": "C11 C15 C19",
    "foundations/query/search_elements.py": "C12",
    "factories": "C07 C09 C03 C02 C17",
    "hypergraph/base_elements.py": "C08 C04 C03 C07 C11 C09 C05 C01 C02 C06 C17",
    "hypergraph/value_node.py": "C21 C18 C24",
    "hypergraph/encoding": "C17 C18 C19",
    "hypergraph/factorization_operations.py": "C20",
    "hypergraph/homomorphism_functions.py": "C14 C17 C19 C15",
    "hypergraph/norm": "C11 C15",
    "hypergraph/representation": "C16 C15",
    "hypergraph/sample_graphs": "C16",
    "tensor": "C15 C16",
    "query": "C13",
    "format": "C22 C23 C24 C21 C07",
}
REL = "framework_python/rei"


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    docs = set()
    for n in nodes:
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and n.body and \
                isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
            docs.add(id(n.body[0]))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs |= {id(n), id(n.value)}
        elif isinstance(n, ast.arg) and n.annotation is not None:
            docs |= {id(x) for x in ast.walk(n.annotation)}
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.returns is not None:
            docs |= {id(x) for x in ast.walk(n.returns)}
        elif isinstance(n, ast.AnnAssign):
            docs |= {id(x) for x in ast.walk(n.annotation)}
    CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
           ast.GtE: [ast.Gt], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is, ast.NotEq], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
    BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}

    def variants(n):
        if id(n) in docs:
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                yield f"compare {type(n.ops[0]).__name__}->{o.__name__}", lambda m, o=o: setattr(m, "ops", [o()])
        if isinstance(n, ast.BoolOp):
            o = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield "and<->or", lambda m: setattr(m, "op", o())
            for k in range(len(n.values)):
                yield f"drop operand {k}", lambda m, k=k: m.values.pop(k) and None
        if isinstance(n, (ast.If, ast.While)):
            yield "negate condition", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))
            if isinstance(n, ast.If):
                yield "condition true", lambda m: setattr(m, "test", ast.Constant(True))
                yield "condition false", lambda m: setattr(m, "test", ast.Constant(False))
        if isinstance(n, ast.IfExp):
            yield "swap branches", lambda m: (lambda a, b: (setattr(m, "body", b), setattr(m, "orelse", a)))(m.body, m.orelse)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield f"{type(n.op).__name__} swapped", lambda m: setattr(m, "op", BIN[type(m.op)]())
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                yield "flip", lambda m: setattr(m, "value", not v)
            elif isinstance(v, (int, float)):
                yield "number+1", lambda m: setattr(m, "value", v + 1)
            elif isinstance(v, str) and v:
                yield "text changed", lambda m: setattr(m, "value", v + "X")
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for k in range(len(n.args) - 1):
                    yield f"swap arguments {k}", lambda m, k=k: m.args.__setitem__(slice(k, k + 2), [m.args[k + 1], m.args[k]])
            for k in range(len(n.keywords)):
                yield f"drop keyword {n.keywords[k].arg}", lambda m, k=k: m.keywords.pop(k) and None
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "set", "sorted", "str", "float", "int", "map", "filter") \
                    and len(n.args) == 1:
                yield "unwrap " + n.func.id, ("replace", lambda m: m.args[0])
        if isinstance(n, ast.Return) and n.value is not None:
            yield "return nothing", lambda m: setattr(m, "value", None)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and n.generators[0].ifs:
            yield "drop filter", lambda m: setattr(m.generators[0], "ifs", [])
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            yield "drop statement", ("replace", lambda m: ast.Pass())
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield "drop slice", ("replace", lambda m: m.value)
        if isinstance(n, ast.UnaryOp):
            yield "drop unary", ("replace", lambda m: m.operand)

    for k, n in enumerate(nodes):
        for desc, act in variants(n):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[k]
            if isinstance(act, tuple):
                new = act[1](m)
                done = False
                for p in ast.walk(t):
                    for f, val in ast.iter_fields(p):
                        if val is m:
                            setattr(p, f, new)
                            done = True
                        elif isinstance(val, list):
                            for j, x in enumerate(val):
                                if x is m:
                                    val[j] = new
                                    done = True
                if not done:
                    continue
            else:
                act(m)
            try:
                out = ast.unparse(ast.fix_missing_locations(t))
                compile(out, "m", "exec")
            except Exception:
                continue
            yield getattr(n, "lineno", 0), desc, out, ast.unparse(n)[:150]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--files", default="")
    ap.add_argument("--sample", type=float, default=1.0)
    ap.add_argument("--scale", default="0.12")
    ap.add_argument("--full", default="1")
    ap.add_argument("--all-props", action="store_true")
    a = ap.parse_args()
    verif = tempfile.mkdtemp(prefix="mv", dir="/tmp")
    subprocess.run(f"git -C /verif archive HEAD | tar x -C {verif}", shell=True, check=True)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    work = []
    root = os.path.join("/repo", REL)
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".py") and f != "__init__.py":
                p = os.path.relpath(os.path.join(d, f), root)
                if a.files not in p:
                    continue
                checks = next((c for k, c in CHECKS.items() if p.startswith(k)), None)
                if checks is None:
                    print("no checks for", p)
                    continue
                src = open(os.path.join(d, f)).read()
                plain = ast.unparse(ast.parse(src))
                for line, desc, text, what in mutants(src):
                    if text != plain:
                        work.append((p, line, desc, text, what, checks.split()))
    random.Random(1).shuffle(work)
    work = work[:int(len(work) * a.sample)]
    done = set()
    if os.path.exists(a.out):
        done = {tuple(json.loads(l)["key"]) for l in open(a.out)}
    print(len(work), "mutants", flush=True)
    out = open(a.out, "a")

    def one(w):
        p, line, desc, text, what, checks = w
        key = (p, line, desc, what)
        if key in done:
            return
        t = tempfile.mkdtemp(prefix="mr", dir="/tmp")
        res = {"key": key, "killed": [], "survived": [], "tests": None}
        try:
            subprocess.run(f"cp -a /repo/framework_python /repo/framework {t}/", shell=True, check=True)
            open(os.path.join(t, REL, p), "w").write(text)
            for c in checks:
                if not os.path.exists(f"{verif}/rv/checks/{c.lower()}.py"):
                    continue
                for scale in ("0.02", a.scale, a.full):
                    try:
                        r = subprocess.run(["./check.sh", c, "--workers", "1", "--scale", scale], cwd=verif, capture_output=True,
                                           text=True, timeout=900, env={**os.environ, "VERIF_REPO": t, "RV_MAX_VIOLATIONS": "1", "RV_CPU_LIMIT": "15"})
                        code = r.returncode
                    except subprocess.TimeoutExpired:
                        code = "timeout"
                    if code == 1:
                        break
                (res["killed"] if code == 1 else res["survived"]).append([c, code] if code not in (0, 1) else c)
                if code == 1 and not a.all_props:
                    break
            if not res["killed"]:
                r = subprocess.run(
                    "cd framework_python && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider "
                    f"--timeout=100 --continue-on-collection-errors --tb=no -o junit_family=xunit2 --junitxml={t}/j.xml test; "
                    f"python3 /opt/vp/results.py {t}/o.json junit:{t}/j.xml", shell=True, cwd=t, capture_output=True)
                try:
                    ok = set(json.load(open(t + "/o.json")).get("passed", []))
                    res["tests"] = not [x for x in base if x not in ok]
                except Exception:
                    res["tests"] = False
        finally:
            shutil.rmtree(t, ignore_errors=True)
        out.write(json.dumps(res) + "\n")
        out.flush()
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, work))
    shutil.rmtree(verif, ignore_errors=True)


main()
