"""Mutation test of the contracts (development aid): python3 tools/mutate.py PROP [max] [file:func ...]

Every mutant of the functions under contract is verified in a scratch copy; prints those that no obligation fails for.
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def sites(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            yield n, "cmp"
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            yield n, "bin"
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            yield n, "bin"
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            yield n, "const"
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield n, "bool"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            yield n, "unary"
        elif isinstance(n, ast.If):
            yield n, "if"


def mutate(n, kind):
    if kind == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == "bin":
        n.op = BIN[type(n.op)]()
    elif kind == "const":
        n.value = n.value + 1
    elif kind == "bool":
        n.value = not n.value
    elif kind == "unary":
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else None
    elif kind == "if":
        n.test = ast.UnaryOp(ast.Not(), n.test)


class DropUnary(ast.NodeTransformer):
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        return n.operand if n.op is None else n


def main():
    prop = sys.argv[1]
    limit = int(sys.argv[2]) if len(sys.argv) > 2 else 400
    r = json.loads(subprocess.run(["python3-vt", "-c", f"""
import sys; sys.path.insert(0,'/verif')
from vc import core, harness; core.set_engine(core.Engine()); import importlib; importlib.import_module('vc.contracts.{prop}')
import json; print(json.dumps(sorted({{f for c in harness.CONTRACTS['{prop}'] for f in c.functions}})))"""], capture_output=True, text=True).stdout)
    if len(sys.argv) > 3:
        r = sys.argv[3:]
    jobs = []
    for q in r:
        parts = q.split(".")
        file = "pointpats/" + parts[1] + ".py"
        names = parts[2:]
        src = open(os.path.join(REPO, file)).read()
        tree = ast.parse(src)

        def find(node):
            out = []
            for n in ast.walk(node):
                if isinstance(n, ast.FunctionDef):
                    if n.name == names[-1] or (n.name == "_" and any(isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name) and d.value.id == names[-1] for d in n.decorator_list)):
                        out.append(n)
            return out
        if len(names) == 2:
            roots = [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef) and n.name == names[0]]
        else:
            roots = [tree]
        fns = [f for root in roots for f in find(root)]
        allnodes = list(ast.walk(tree))
        pos = {id(n): i for i, n in enumerate(allnodes)}
        for f in fns:
            for n, kind in sites(f):
                t = copy.deepcopy(tree)
                m = list(ast.walk(t))[pos[id(n)]]
                before = ast.unparse(n)
                mutate(m, kind)
                if kind == "unary" and m.op is None:
                    t = DropUnary().visit(t)
                ast.fix_missing_locations(t)
                jobs.append((q, file, n.lineno, kind, before[:90].split("\n")[0], ast.unparse(t)))
    print(len(jobs), "mutants")
    if len(jobs) > limit:
        jobs = jobs[:: max(1, len(jobs) // limit)][:limit]

    def run(job):
        q, file, line, kind, before, text = job
        d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
        try:
            shutil.copytree(os.path.join(REPO, "pointpats"), os.path.join(d, "pointpats"), ignore=shutil.ignore_patterns("tests", "__pycache__"))
            open(os.path.join(d, file), "w").write(text)
            out = os.path.join(d, "o.json")
            try:
                p = subprocess.run(["python3-vt", "/verif/vc/verify.py", prop, "--out", out, "--stop"], env={**os.environ, "VERIF_REPO": d, "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True, timeout=400)
                res = json.load(open(out))
                st = {o["status"] for o in res["obligations"]}
                why = "; ".join(f"{o['name']}|{(o.get('detail') or '')[:120]}" for o in res["obligations"] if o["status"] != "discharged")[:300]
            except subprocess.TimeoutExpired:
                st, why = {"timeout"}, ""
            except Exception as e:
                st, why = {"crash"}, (p.stderr or "")[-300:]
            return job, ("refuted" if "refuted" in st else "open" if st - {"discharged"} else "SURVIVED"), why
        finally:
            shutil.rmtree(d, ignore_errors=True)
    tally = {}
    with ThreadPoolExecutor(8) as ex:
        for job, st, why in ex.map(run, jobs):
            tally[st] = tally.get(st, 0) + 1
            if st != "refuted":
                print(st, job[0], job[2], job[3], "|", job[4], "|", why if st == "open" else "", flush=True)
    print(tally)


main()
