"""Mutation campaign: tools/mutate.py OUT.jsonl FILE=ID,ID,... [FILE=...]
Small source changes, one at a time, in scratch copies of /repo; those that pass the repository's tests
are run against the named checks until one reports a violation. Development aid, no check uses it."""
import ast, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("MUT_WORK", "/tmp/mut")
NW = int(os.environ.get("MUT_WORKERS", "4"))
JOBS = os.environ.get("MUT_JOBS", "2")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.BitAnd: "|", ast.BitOr: "&"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    raw = src.encode()
    for l in raw.split(b"\n"):
        offs.append(offs[-1] + len(l) + 1)
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: raw[slice(*pos(n))].decode()
    out = []

    def add(n, text, what):
        a, b = pos(n)
        out.append((a, b, text, n.lineno, what))

    def walk(n):
        if isinstance(n, (ast.JoinedStr,)) or isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) > 50:
            return
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Attribute) and f.value.attr in ("log", "_log"):
                return
            if isinstance(f, ast.Name) and f.id in ("set", "list", "dict", "frozenset", "tuple", "sorted", "copy", "deepcopy") and len(n.args) == 1 and not isinstance(n.args[0], ast.Starred):
                a = n.args[0]
                t = seg(a)
                if isinstance(a, ast.GeneratorExp) and not t.startswith("("):
                    t = None
                if t:
                    add(n, t, f"drop {f.id}()")
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "deepCopy") and not n.args:
                add(n, seg(f.value), "drop .copy()")
            if isinstance(f, ast.Name) and f.id in ("any", "all", "min", "max"):
                add(f, {"any": "all", "all": "any", "min": "max", "max": "min"}[f.id], "swap " + f.id)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0])
            if op in CMP:
                add(n, f"{seg(n.left)} {CMP[op]} {seg(n.comparators[0])}", "compare")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join("(" + seg(v) + ")" for v in n.values) + ")", "and/or")
            for i in range(len(n.values)):
                rest = [seg(v) for j, v in enumerate(n.values) if j != i]
                o = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + o.join(rest) + ")", f"drop operand {i}")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(" + seg(n.operand) + ")", "drop not")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, f"{seg(n.left)} {BIN[type(n.op)]} {seg(n.right)}", "binop")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool")
            elif isinstance(n.value, (int, float)):
                add(n, repr(n.value + 1), "const+1")
            return
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, "True" if not isinstance(n, ast.While) else "False", "cond const")
            if not isinstance(n, ast.While):
                add(n.test, "False", "cond False")
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                add(c, "True", "drop comp if")
        if isinstance(n, (ast.Assert, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            add(n, "pass", "drop " + type(n).__name__)
        if isinstance(n, ast.Assign):
            if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                add(n, "pass", "drop assign")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return
            add(n, "pass", "drop stmt")
        if isinstance(n, ast.Assert):
            walk(n.test)
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, (ast.FunctionDef, ast.arg, ast.AnnAssign)) and isinstance(n, ast.FunctionDef):
            for d in n.args.defaults:
                walk(d)
            for s in n.body:
                walk(s)
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and "__main__" in seg(n.test):
            return
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(tree)
    res = []
    for a, b, t, line, what in out:
        m = (raw[:a] + t.encode() + raw[b:]).decode()
        if m == src:
            continue
        try:
            compile(m, "x", "exec")
        except SyntaxError:
            continue
        res.append((m, line, what, raw[a:b].decode(), t))
    return res


def main():
    outp = sys.argv[1]
    todo = []
    for spec in sys.argv[2:]:
        f, ids = spec.split("=")
        src = open(os.path.join("/repo", f)).read()
        for m, line, what, old, new in mutants(src):
            todo.append((f, m, line, what, old, new, ids.split(",")))
    print(len(todo), "mutants", flush=True)
    if os.path.exists(outp):
        donekeys = {tuple(json.loads(l)["key"]) for l in open(outp)}
    else:
        donekeys = set()
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    subprocess.check_call(["git", "-C", VERIF, "archive", "-o", WORK + "/v.tar", "HEAD"])
    free = []
    for k in range(NW):
        d = f"{WORK}/w{k}"
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        os.makedirs(d + "/verif")
        subprocess.check_call(["tar", "-xf", WORK + "/v.tar", "-C", d + "/verif"])
        free.append(d)
    lock = threading.Lock()
    fo = open(outp, "a")

    def one(t):
        f, m, line, what, old, new, ids = t
        key = (f, line, what, old[:200], new[:200])
        if key in donekeys:
            return
        with lock:
            d = free.pop()
        try:
            p = os.path.join(d, "repo", f)
            orig = open(os.path.join("/repo", f)).read()
            open(p, "w").write(m)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", BROWSER="true")
            dead = None
            if "/relnet/" in f:
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "scripts/test",
                                        "--deselect", "scripts/test/relnet/test_graph_components.py::TestDirectedRelation::test_repr"],
                                       cwd=d + "/repo/Python/research", env=env, capture_output=True, timeout=120)
                    if r.returncode != 0:
                        dead = "tests"
                except subprocess.TimeoutExpired:
                    dead = "tests"
            msg = ""
            if not dead:
                for i in ids:
                    try:
                        r = subprocess.run([d + "/verif/check", i], env=dict(env, VERIF_REPO=d + "/repo", VERIF_JOBS=JOBS), capture_output=True, text=True, timeout=300)
                    except subprocess.TimeoutExpired:
                        dead = i + ":timeout"
                        break
                    if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                        dead = i
                        msg = r.stdout[:200]
                        break
                    if r.returncode != 0:
                        dead = f"{i}:exit{r.returncode}"
                        msg = r.stderr[-300:]
                        break
            open(p, "w").write(orig)
            with lock:
                fo.write(json.dumps({"key": key, "dead": dead, "msg": msg}) + "\n")
                fo.flush()
        finally:
            with lock:
                free.append(d)

    with ThreadPoolExecutor(NW) as ex:
        for r in ex.map(one, todo):
            pass


main()
