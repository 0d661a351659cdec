"""Mutation testing of the checks: which small edits of celest do they miss?

usage: python3 tools/mutate.py OUT.jsonl FILE[:PATTERN] ...   (files relative to /repo)

Every mutant is an edit of one expression or statement in a scratch copy of
/repo.  The checks concerned run on it (no shrinking, stopping at the first
failure); those that no check fails are run through the repository's tests and
listed if they pass these too.  Environment: MUT_JOBS (4), MUT_SAMPLE (all),
MUT_SEED (1), MUT_CHECKS (how many of a file's checks to run).
"""
import warnings; warnings.simplefilter("ignore")
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant  # noqa: E402

VERIF = plant.VERIF
CHECKS = {
    "units/": "C02 C01 C03 C13 C30 C31", "angle_strings": "C05", "file_save": "C30",
    "ground_location": "C04 C05 C11 C30", "transforms": "C07 C09 C11 C19 C31 C08 C18 C10 C12 C13",
    "frames/": "C06 C10 C13 C30 C20 C19 C31", "coordinate.py": "C10 C06 C13 C31",
    "astronomical": "C17 C14 C15 C12 C13 C16", "nutation": "C08 C17 C12 C07",
    "time.py": "C16 C14 C15 C12 C13 C06", "satellite": "C18 C20 C31 C30 C19 C09 C13 C12",
    "window_generator": "C21 C22 C31 C13", "window_handling": "C23 C21 C30 C13",
    "alns": "C28 C27", "insertion": "C25 C27", "removal": "C26 C27",
    "request_handler": "C24 C29 C25 C26", "scheduler.py": "C27 C31 C29",
    "scheduling_utils": "C29 C25 C27", "constants": "C04 C09 C18 C16 C20",
}


def checks_of(file):
    for key, value in CHECKS.items():
        if key in file:
            return value.split()[:int(os.environ.get("MUT_CHECKS", "9"))]
    return []


SWAP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt],
        ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn],
        ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
        ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult],
        ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Sub],
        ast.And: [ast.Or], ast.Or: [ast.And]}
NAMES = {"sin": "cos", "cos": "sin", "arcsin": "arccos", "arccos": "arcsin", "arctan2": "arctan2",
         "argmin": "argmax", "argmax": "argmin", "min": "max", "max": "min", "any": "all", "all": "any",
         "floor": "ceil", "ceil": "floor", "int": "round", "degrees": "radians", "radians": "degrees",
         "append": "extend", "vstack": "hstack", "column_stack": "vstack"}


def variants(node, parent):
    """(replacement source, description) for one node."""
    u = ast.unparse
    if isinstance(node, ast.Compare) and len(node.ops) >= 1:
        for i, op in enumerate(node.ops):
            for new in SWAP.get(type(op), []):
                ops = list(node.ops); ops[i] = new()
                yield u(ast.Compare(node.left, ops, node.comparators))
    if isinstance(node, ast.BinOp):
        for new in SWAP.get(type(node.op), []):
            yield u(ast.BinOp(node.left, new(), node.right))
        if isinstance(node.op, (ast.Mod, ast.Add, ast.Sub)):
            yield u(node.left)
        if isinstance(node.op, (ast.Sub, ast.Div)):
            yield u(ast.BinOp(node.right, node.op, node.left))
    if isinstance(node, ast.BoolOp):
        yield u(ast.BoolOp(SWAP[type(node.op)][0](), node.values))
        for v in node.values:
            yield u(v)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not, ast.Invert)):
        yield u(node.operand)
    if isinstance(node, ast.Constant) and not isinstance(parent, ast.Expr):
        v = node.value
        if isinstance(v, bool):
            yield repr(not v)
        elif isinstance(v, int):
            yield repr(v + 1); yield repr(v - 1)
        elif isinstance(v, float):
            yield repr(v * 1.0003 if v else 1e-3)
        elif v is None:
            pass
    if isinstance(node, ast.Call):
        name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", None)
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            a = list(node.args); a[0], a[1] = a[1], a[0]
            yield u(ast.Call(node.func, a, node.keywords))
        if name in ("copy", "flatten", "astype", "sort") and isinstance(node.func, ast.Attribute) and \
                not isinstance(node.func.value, ast.Name) or name == "copy":
            yield u(node.func.value if isinstance(node.func, ast.Attribute) and not node.args else node.args[0])
        elif len(node.args) == 1 and name in ("deepcopy", "array", "asarray", "abs", "floor", "ceil", "int",
                                              "round", "list", "unique", "atleast_1d", "float", "sorted", "set"):
            yield u(node.args[0])
        if name in NAMES and NAMES[name] != name:
            f = (ast.Attribute(node.func.value, NAMES[name]) if isinstance(node.func, ast.Attribute)
                 else ast.Name(NAMES[name]))
            yield u(ast.Call(f, node.args, node.keywords))
        for i in range(len(node.keywords)):
            yield u(ast.Call(node.func, node.args, node.keywords[:i] + node.keywords[i + 1:]))
    if isinstance(node, ast.Slice):
        for part in ("lower", "upper", "step"):
            if getattr(node, part) is not None:
                kw = dict(lower=node.lower, upper=node.upper, step=node.step); kw[part] = None
                yield u(ast.Slice(**kw))
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        pass
    if isinstance(node, ast.IfExp):
        yield u(node.body); yield u(node.orelse)


def mutants(path, text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    data = [l.encode() for l in lines]
    for l in data:
        starts.append(starts[-1] + len(l))
    raw = text.encode()

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset)

    out = []
    seen = set()

    def add(node, new, kind):
        a, b = span(node)
        result = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(result.decode())
        except SyntaxError:
            return
        if result == raw or result in seen:
            return
        seen.add(result)
        old = raw[a:b].decode()
        out.append(dict(file=path, line=node.lineno, kind=kind, old=old[:160], new=new[:160],
                        text=result.decode()))

    def docstring(node):
        return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)

    def visit(node, parent, annotations=False):
        if isinstance(node, ast.expr) or isinstance(node, ast.Slice):
            for new in variants(node, parent):
                simple = isinstance(node, (ast.Constant, ast.Call, ast.Slice)) and not new.startswith("-")
                add(node, new if simple else "(" + new + ")", type(node).__name__)
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Break, ast.Continue)) \
                and not docstring(node):
            inside = not isinstance(parent, ast.Module)
            if inside:
                add(node, "pass", "delete")
        if isinstance(node, (ast.If, ast.While)):
            add(node.test, "False", "cond")
            if isinstance(node, ast.If):
                add(node.test, "True", "cond")
        if isinstance(node, ast.If) and node.orelse and not isinstance(node.orelse[0], ast.If):
            pass
        for name, value in ast.iter_fields(node):
            if name in ("annotation", "returns", "decorator_list", "type_comment"):
                continue
            if isinstance(node, ast.Raise):
                continue
            for child in value if isinstance(value, list) else [value]:
                if isinstance(child, (ast.Import, ast.ImportFrom)) or not isinstance(child, ast.AST):
                    continue
                visit(child, node)
    visit(tree, None)
    return out


def run(job):
    number, m = job
    start = time.time()
    d = tempfile.mkdtemp(prefix="mut-")
    copy = d + "/repo"
    try:
        shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        with open(os.path.join(copy, m["file"]), "w") as f:
            f.write(m["text"])
        r = {k: m[k] for k in ("file", "line", "kind", "old", "new")}
        for k, prop in enumerate(checks_of(m["file"])):
            if k == 1:
                broken = plant.tests(copy)
                if broken:
                    r.update(status="tests", broken=broken[:2])
                    break
            rc, out = plant.sh(["bash", VERIF + "/check.sh", prop, "quick"], cwd=VERIF, timeout=400, env=dict(
                VERIF_REPO=copy, VERIF_SEED="1", VERIF_FAST="1", VERIF_WORKERS="2"))
            if rc != 0:
                r.update(status="killed" if rc == 1 else "rc%d" % rc, by=prop,
                         why=[l for l in out.splitlines() if l.strip()][-1:])
                break
        else:
            broken = [] if k else plant.tests(copy)
            r.update(status="tests" if broken else "SURVIVED", broken=broken[:2])
        r["t"] = round(time.time() - start, 1)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out, specs = sys.argv[1], sys.argv[2:]
    jobs = []
    for spec in specs:
        file, _, lines = spec.partition(":")
        text = open(os.path.join("/repo", file)).read()
        ms = mutants(file, text)
        if lines:
            a, b = lines.split("-")
            ms = [m for m in ms if int(a) <= m["line"] <= int(b)]
        jobs += ms
    n = int(os.environ.get("MUT_SAMPLE", "0"))
    if n and n < len(jobs):
        jobs = random.Random(int(os.environ.get("MUT_SEED", "1"))).sample(jobs, n)
    print(len(jobs), "mutants", flush=True)
    counts = {}
    with open(out, "a") as f, ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "4"))) as pool:
        for r in pool.map(run, enumerate(jobs)):
            counts[r["status"]] = counts.get(r["status"], 0) + 1
            f.write(json.dumps(r) + "\n"); f.flush()
            if r["status"] not in ("killed", "tests"):
                print(json.dumps(r), flush=True)
    print(counts)


if __name__ == "__main__":
    main()
