"""Mutation campaign: which changes survive the test suite, which of these do the checks see?

    mutate.py list FILE...            number of mutants
    mutate.py tests OUT [FILE...]     run the test suite on each mutant; write survivors
    mutate.py checks IN OUT           run the checks on each survivor until one reports

Works on clones below /tmp, removes them.  A development tool; no check uses it.
"""
import ast, concurrent.futures as cf, json, os, queue, shutil, subprocess, sys

PY = "/opt/venv/bin/python"
NW = int(os.environ.get("MUT_WORKERS", "6"))
ORDER = {  # checks most closely concerned first
    "kernel": "C01 C21 C02 C22 C17 C04", "sve": "C02 C03 C22 C21 C12 C14 C17",
    "svd": "C20 C22 C02 C21", "poly": "C06 C05 C07 C23 C21 C08 C12 C13 C02",
    "_gauss": "C19 C21 C02 C23", "_roots": "C08 C09 C21", "_util": "C07 C21 C05 C15",
    "sampling": "C10 C11 C24 C21 C12 C25 C26 C15 C16 C09", "basis": "C09 C14 C24 C04 C03 C21 C07 C12 C15 C17",
    "basis_set": "C17 C21 C12 C11", "dlr": "C16 C21 C07 C12 C13", "augment": "C15 C24 C21 C07 C12 C09 C26",
    "adapter": "C18 C21 C07", "abstract": "C07 C21 C09 C15 C17", "__init__": "C17 C21",
}
ALL = ["C%02d" % i for i in range(1, 27)]
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"],
       ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
       ast.In: ["not in"], ast.NotIn: ["in"]}
CMPTXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
          ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.Mult: ("*", ["/"]), ast.Div: ("/", ["*"]),
       ast.FloorDiv: ("//", ["/"]), ast.Mod: ("%", ["//"]), ast.Pow: ("**", ["*"]),
       ast.MatMult: ("@", ["*"]), ast.BitAnd: ("&", ["|"]), ast.BitOr: ("|", ["&"])}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    starts = [0]
    for line in src.splitlines(keepends=True):
        starts.append(starts[-1] + len(line))
    off = lambda l, c: starts[l - 1] + c
    beg = lambda n: off(n.lineno, n.col_offset)
    end = lambda n: off(n.end_lineno, n.end_col_offset)
    out = []

    def add(node, a, b, new, kind):
        if src[a:b] != new:
            out.append((node.lineno, a, b, new, kind))

    def between(x, y, txt, new, node, kind):
        a, b = end(x), beg(y)
        i = src.find(txt, a, b)
        if i >= 0:
            add(node, i, i + len(txt), new, kind)

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and \
                isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0])
            for new in CMP[op]:
                between(n.left, n.comparators[0], CMPTXT[op], new, n, "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            txt, news = BIN[type(n.op)]
            for new in news:
                between(n.left, n.right, txt, new, n, "bin")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, beg(n), end(n), str(not v), "bool")
            elif isinstance(v, int):
                add(n, beg(n), end(n), str(v + 1), "int")
            elif isinstance(v, float):
                add(n, beg(n), end(n), repr(v / 1000 + (v == 0)), "float")
        elif isinstance(n, ast.BoolOp):
            a, b = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            between(n.values[0], n.values[1], a, b, n, "boolop")
        elif isinstance(n, ast.UnaryOp):
            add(n, beg(n), beg(n.operand), "", "unary")
        elif isinstance(n, ast.If):
            if isinstance(n.test, ast.Compare):
                continue
            add(n, beg(n.test), end(n.test), "True", "if")
            add(n, beg(n.test), end(n.test), "False", "if")
        elif isinstance(n, ast.IfExp):
            add(n, beg(n.test), end(n.test), "True", "if")
            add(n, beg(n.test), end(n.test), "False", "if")
        elif isinstance(n, ast.Call):
            args = list(n.args) + [k.value for k in n.keywords]
            for k in n.keywords:
                if k.arg is None:
                    continue
                a, b = beg(k), end(k)
                if src[b:b + 1] == ",":
                    b += 1
                elif len(args) > 1:
                    i = src.rfind(",", 0, a)
                    if i > 0:
                        a = i
                add(n, a, b, "", "kwarg")
            if len(n.args) == 2 and not n.keywords:
                x, y = n.args
                t = src[beg(y):end(y)] + src[end(x):beg(y)] + src[beg(x):end(x)]
                add(n, beg(x), end(y), t, "swap")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("conj", "abs", "copy") \
                    and not n.args and not n.keywords:
                add(n, end(n.func.value), end(n), "", "method")
            if isinstance(n.func, ast.Attribute) and len(n.args) == 1 and not n.keywords \
                    and isinstance(n.func.value, ast.Name) and n.func.value.id == "np":
                add(n, beg(n), end(n), "(" + src[beg(n.args[0]):end(n.args[0])] + ")", "unwrap")
        elif isinstance(n, ast.Slice):
            for part in (n.lower, n.upper, n.step):
                if part is not None:
                    add(n, beg(part), end(part), "", "slice") if part is not n.step else \
                        add(n, beg(part) - 1, end(part), "", "slice")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and n not in doc:
            add(n, beg(n), end(n), "pass", "del")
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            txt, news = BIN[type(n.op)]
            for new in news:
                between(n.target, n.value, txt + "=", new + "=", n, "aug")
        if isinstance(n, ast.Attribute) and n.attr in ("T", "real", "imag"):
            add(n, end(n.value), end(n), "", "attr")
    good, seen = [], set()
    for line, a, b, new, kind in sorted(out):
        text = src[:a] + new + src[b:]
        if text in seen:
            continue
        seen.add(text)
        try:
            ast.parse(text)
        except SyntaxError:
            continue
        good.append(dict(file=os.path.basename(path), line=line, a=a, b=b, old=src[a:b], new=new,
                         kind=kind, text=src.splitlines()[line - 1].strip()))
    return good


def run(cmd, cwd, env, timeout):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             **env)
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=e, text=True, start_new_session=True,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


def apply(wt, m):
    p = f"{wt}/src/sparse_ir/{m['file']}"
    s = subprocess.check_output(["git", "show", f"HEAD:src/sparse_ir/{m['file']}"], cwd=wt, text=True)
    assert s[m["a"]:m["b"]] == m["old"]
    open(p, "w").write(s[:m["a"]] + m["new"] + s[m["b"]:])


def covering(m):
    """Tests which execute the line (map from a coverage run), fast ones first"""
    cov = json.load(open(os.environ["MUT_COV"]))
    tree = ast.parse(open("/repo/src/sparse_ir/" + m["file"]).read())
    lines = {m["line"]}
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt) and n.lineno <= m["line"] <= n.end_lineno and \
                not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.With, ast.Try)):
            lines.add(n.lineno)
    keys = {(m["file"], i) for i in lines}
    hit = [t for t, v in cov["tests"].items() if keys & set(map(tuple, v))
           or any(keys & set(map(tuple, cov["fx"].get(f, ()))) for f in cov["names"][t])]
    if not hit and keys & set(map(tuple, cov["imp"])):
        hit = list(cov["tests"])
    return sorted(hit, key=lambda t: cov["dur"][t])


def tests(wt, m):
    apply(wt, m)
    env = {"PYTHONPATH": wt + "/src"}
    if "MUT_COV" in os.environ:
        todo = covering(m)
        if not todo:
            return dict(m, tests="pass", covered=0)
        slow = [t for t in todo if "sample3" in t]
        fast = [t for t in todo if "sample3" not in t]
        for part in (fast, slow if not fast else ()):
            if part:
                args = " ".join(f"'{t}'" for t in part)
                rc, o = run(f"timeout 280 {PY} -m pytest {args} -q -x -p no:cacheprovider 2>&1",
                            wt, env, 300)
                if rc:
                    return dict(m, tests="killed", rc=rc)
        return dict(m, tests="pass", covered=len(todo))
    rc, o = run(f"{PY} -c 'import sparse_ir'", wt, env, 60)
    if rc:
        return dict(m, tests="import")
    rc, o = run(f"timeout 280 {PY} -m pytest test -q -x -p no:cacheprovider 2>&1 | tail -3", wt, env, 300)
    return dict(m, tests="pass" if " passed" in o and "failed" not in o and "error" not in o else "killed")


def checks(wt, m):
    apply(wt, m)
    first = ORDER[m["file"][:-3]].split()
    tried = []
    for c in first + [c for c in ALL if c not in first] if os.environ.get("MUT_ALL") else first:
        rc, o = run(f"timeout 890 {PY} mc/run.py {c}", "/verif",
                    dict(MC_REPO=wt, MC_OUT=wt + "_out", MC_NPROC="2"), 900)
        tried.append(c)
        if rc:
            return dict(m, caught=c if rc == 1 else f"{c}?{rc}",
                        what=[l for l in o.splitlines() if "VIOL" in l][:1])
    return dict(m, caught=None)


def pool(func, todo, out):
    q = queue.Queue()
    for i in range(NW):
        wt = f"/tmp/wtm_{os.getpid()}_{i}"
        shutil.rmtree(wt, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", wt])
        q.put(wt)

    def one(m):
        wt = q.get()
        try:
            return func(wt, m)
        except Exception as e:
            return dict(m, error=repr(e))
        finally:
            q.put(wt)
    with cf.ThreadPoolExecutor(NW) as ex, open(out, "a") as f:
        for r in ex.map(one, todo):
            f.write(json.dumps(r) + "\n")
            f.flush()
    while not q.empty():
        wt = q.get()
        shutil.rmtree(wt, ignore_errors=True)
        shutil.rmtree(wt + "_out", ignore_errors=True)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    base = "/repo/src/sparse_ir/"
    if cmd in ("list", "tests"):
        files = args[(cmd == "tests"):] or sorted(f for f in os.listdir(base) if f.endswith(".py"))
        todo = [m for f in files for m in mutants(base + f)]
        stride, first = map(int, os.environ.get("MUT_STRIDE", "1,0").split(","))
        todo = todo[first::stride]
        print(len(todo))
        if cmd == "list":
            return
        done = set()
        if os.path.exists(args[0]):
            done = {(d["file"], d["a"], d["b"], d["new"]) for d in map(json.loads, open(args[0]))}
        pool(tests, [m for m in todo if (m["file"], m["a"], m["b"], m["new"]) not in done], args[0])
    else:
        todo = [m for m in map(json.loads, open(args[0])) if m.get("tests") == "pass"]
        done = set()
        if os.path.exists(args[1]):
            done = {(d["file"], d["a"], d["b"], d["new"]) for d in map(json.loads, open(args[1]))}
        pool(checks, [m for m in todo if (m["file"], m["a"], m["b"], m["new"]) not in done], args[1])


if __name__ == "__main__":
    main()
