"""Systematic mutation of /repo's sources, to find out what no check notices.

  python3 tools/mutate.py base                    times of all checks, on one core
  python3 tools/mutate.py list FILE               mutants of a file
  python3 tools/mutate.py run OUT FILE[:every[:first]] ...   run them, on 8 cores

Nothing in /repo is touched: every worker has its own copy of the package under /tmp/p/mut."""
import ast, json, os, shutil, subprocess, sys, time, re
from concurrent.futures import ThreadPoolExecutor
import queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VERIF_REPO", "/repo")
W = "/tmp/p/mut"
SWAP = {"sin": "cos", "cos": "sin", "min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "amin": "amax", "amax": "amin", "ceil": "floor", "floor": "ceil", "any": "all", "all": "any",
        "minimum": "maximum", "maximum": "minimum", "sum": "mean", "mean": "sum", "zeros": "ones", "ones": "zeros", "atan2": "hypot", "acos": "asin", "asin": "acos", "sqrt": "square", "abs": "neg", "rfft": "fft", "cumsum": "cumprod", "logical_and": "logical_or", "logical_or": "logical_and"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.MatMult: "*"}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()
    tree = ast.parse(src)
    out = []

    def pos(n, end=False):
        return off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def seg(n):
        return raw[pos(n):pos(n, True)].decode()

    def add(n, a, b, new, kind):
        out.append((n.lineno, kind, a, b, new))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= {id(n), id(n.value)}
        if isinstance(n, (ast.FunctionDef,)):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    skip |= {id(x) for x in ast.walk(a.annotation)}
            if n.returns:
                skip |= {id(x) for x in ast.walk(n.returns)}
            for d in n.decorator_list:
                skip |= {id(x) for x in ast.walk(d)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and "__name__" in seg(n.test):
            skip |= {id(x) for x in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = pos(n.left, True), pos(n.comparators[0])
            add(n, a, b, " " + CMP[type(n.ops[0])] + " ", "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = pos(n.left, True), pos(n.right)
            mid = raw[a:b].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.MatMult: "@"}[type(n.op)]
            if mid.count(sym) >= 1 and "#" not in mid:
                add(n, a, b, mid.replace(sym, BIN[type(n.op)], 1), "binary")
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0], True), pos(n.values[1])
            mid = raw[a:b].decode()
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            add(n, a, b, mid.replace(o, w), "bool")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, pos(n), pos(n, True), str(not v), "flag")
            elif isinstance(v, int):
                add(n, pos(n), pos(n, True), str(v + 1), "int")
            elif isinstance(v, float):
                add(n, pos(n), pos(n, True), repr(v * 1.03 if v else 0.01), "float")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            if isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
                add(n, pos(n), pos(n, True), "(" + seg(n.operand) + ")" if n.operand.value != 1 else "0", "sign")
            else:
                add(n, pos(n), pos(n, True), "(" + seg(n.operand) + ")", "sign")
        elif isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
            e = pos(n, True)
            add(n, e - len(n.attr), e, SWAP[n.attr], "name")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign) and any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets)):
            add(n, pos(n), pos(n, True), "pass", "delete")
        elif isinstance(n, ast.If):
            add(n, pos(n.test), pos(n.test, True), "not (" + seg(n.test) + ")", "branch")
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
            add(n, pos(n), pos(n, True), "pass", "delete")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("clamp", "clamp_", "contiguous", "clone", "abs", "abs_", "flip", "detach", "squeeze", "t", "conj", "transpose", "sort", "unique") and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("torch", "np")):
            add(n, pos(n), pos(n, True), seg(n.func.value), "drop")
    out.sort()
    res = []
    for line, kind, a, b, new in out:
        t = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append((line, kind, raw[a:b].decode().strip(), new.strip(), t.decode()))
    return res


def checks_of(f):
    r = []
    for l in open(V + "/properties.jsonl"):
        if f in l:
            r.append(json.loads(l)["id"])
    base = json.load(open(W + "/base.json"))
    return sorted((c for c in r if c in base), key=lambda c: base[c])


def check(c, root, limit):
    env = dict(os.environ, VERIF_REPO=root, VERIF_JOBS="1", VERIF_EVIDENCE=root + "/ev", TMPDIR=root, VERIF_TIER="quick")
    t = time.time()
    p = subprocess.Popen(["timeout", str(int(limit)), V + "/run.sh", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    o, _ = p.communicate()
    return p.returncode, time.time() - t, o


def copy(k):
    root = f"{W}/{k}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    shutil.copytree(SRC + "/ebsdtorch", root + "/ebsdtorch", ignore=shutil.ignore_patterns("__pycache__"))
    return root


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        for m in mutants(f"{SRC}/{sys.argv[2]}"):
            print(m[:4])
        return
    roots = queue.Queue()
    for k in range(int(os.environ.get("MUT_JOBS", "8"))):
        roots.put(copy(k))
    n = roots.qsize()
    if cmd == "base":
        ids = sys.argv[2:] or [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
        base = json.load(open(W + "/base.json")) if os.path.exists(W + "/base.json") else {}

        def one(c):
            r = roots.get()
            rc, t, o = check(c, r, 1500)
            roots.put(r)
            print(c, rc, round(t, 1), flush=True)
            if rc == 0:
                base[c] = t
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(one, ids))
        json.dump(base, open(W + "/base.json", "w"))
        return
    base = json.load(open(W + "/base.json"))
    out = open(sys.argv[2], "a")
    only = os.environ.get("MUT_CHECKS", "").split()
    jobs = []
    for a in sys.argv[3:]:
        f, *x = a.split(":")
        every, first = int(x[0]) if x else 1, int(x[1]) if len(x) > 1 else 0
        ms = mutants(f"{SRC}/{f}")
        cs = only or checks_of(f)
        print(f, len(ms[first::every]), "of", len(ms), "mutants", cs, flush=True)
        jobs += [(f, m, cs) for m in ms[first::every]]

    def one(j):
        f, (line, kind, old, new, text), cs = j
        r = roots.get()
        try:
            orig = open(f"{SRC}/{f}").read()
            open(f"{r}/{f}", "w").write(text)
            res = "SURVIVED"
            for c in cs:
                rc, t, o = check(c, r, 3 * base[c] + 60)
                if rc == 1 and "VIOLATION" in o:
                    res = "killed " + c
                    break
                if rc != 0:
                    res = f"odd {c} rc={rc} " + o.strip()[-200:].replace("\n", " | ")
                    if rc != 124:
                        break
            open(f"{r}/{f}", "w").write(orig)
            out.write(json.dumps([f, line, kind, old, new, res]) + "\n")
            out.flush()
        finally:
            roots.put(r)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, jobs))
    print("done", len(jobs))


main()
