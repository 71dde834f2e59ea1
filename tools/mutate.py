"""Mutation campaign (development tool, no check uses it).

python3 tools/mutate.py FILE... [--jobs N] [--scale S] [--out F] [--only SUBSTR]
Makes one small change at a time in a scratch copy of /repo, drops the ones the
stable tests notice, runs the checks of that file and reports the survivors.
"""
import argparse, ast, concurrent.futures as cf, json, os, queue, shutil, subprocess, sys, tempfile, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "toffee/bundle.py": "B01 B04 B05 B06 B07 B03 B02 B08 B09 G01 B10",
    "toffee/asynchronous.py": "A01 A04 A03 A05 A02 M07 E01 A06 V01",
    "toffee/executor.py": "E01 E02 M02 A04 A03 A01 V01",
    "toffee/_base_agent.py": "M01 M02 M03 M04 M07 A04 M06 A01 A03 V01",
    "toffee/_compare.py": "M03 A04 V01",
    "toffee/agent.py": "M01 M07 M05 M04 M06",
    "toffee/env.py": "M05 M01 M06 M04 M07",
    "toffee/model.py": "M05 M01 M04 M06 M02 M07 A04 A06 V01",
    "toffee/triggers.py": "A02",
    "toffee/delay.py": "A05",
    "toffee/funcov.py": "F01 F02 F03",
    "toffee/logger.py": "L01",
    "toffee/debug.py": "D01",
    "toffee/utils/plru.py": "U01",
    "toffee/utils/lfsr_64.py": "U01",
    "toffee/utils/two_bits_counter.py": "U01",
    "scripts/bundle_code_gen.py": "G01",
    "scripts/bundle_code_intel_gen.py": "G02",
}
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
        ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
QUIET = {"info", "warning", "print", "debug"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    off = lambda ln, col: starts[ln - 1] + col
    seg = lambda n: raw[off(n.lineno, n.col_offset):off(n.end_lineno, n.end_col_offset)].decode()
    out = []

    def rep(n, text, why):
        a, b = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
        new = (raw[:a] + text.encode() + raw[b:]).decode()
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            return
        if new != src:
            out.append((n.lineno, why, new))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(id(n.value))
    quiet = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in QUIET:
            for m in ast.walk(n):
                quiet.add(id(m))
    for n in ast.walk(tree):
        if id(n) in quiet:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = SWAP[type(n.ops[0])]
            rep(n, f"({seg(n.left)} {o} {seg(n.comparators[0])})", "compare->" + o)
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + op.join(f"({seg(v)})" for v in n.values) + ")", "bool->" + op.strip())
            for i in range(len(n.values)):
                vs = n.values[:i] + n.values[i + 1:]
                op2 = " and " if isinstance(n.op, ast.And) else " or "
                rep(n, "(" + op2.join(f"({seg(v)})" for v in vs) + ")", f"drop operand {i}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, f"({seg(n.operand)})", "drop not")
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, bool):
                rep(n, str(not n.value), "flip const")
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), "const+1")
                if n.value > 0:
                    rep(n, str(n.value - 1), "const-1")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.JoinedStr):
            o = "-" if isinstance(n.op, ast.Add) else "+"
            rep(n, f"({seg(n.left)} {o} {seg(n.right)})", "binop->" + o)
            if isinstance(n.op, ast.Add):
                rep(n, seg(n.left), "drop right of +")
        elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            v = n.value.value if isinstance(n.value, ast.Await) else n.value
            if id(v) in quiet:
                continue
            rep(n, "pass", "drop statement")
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign):
                rep(n, "pass", "drop assignment")
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n, "return None", "return None")
        elif isinstance(n, ast.Continue):
            rep(n, "pass", "drop continue")
            rep(n, "break", "continue->break")
        elif isinstance(n, ast.Break):
            rep(n, "pass", "drop break")
        elif isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, "True", "if True")
            rep(n.test, "False", "if False")
        elif isinstance(n, ast.Delete):
            rep(n, "pass", "drop del")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            rep(n, seg(n.value), "drop slice")
        elif isinstance(n, ast.Raise):
            rep(n, "pass", "drop raise")
        elif isinstance(n, ast.ExceptHandler):
            pass
        if hasattr(n, "body") and isinstance(getattr(n, "body"), list):
            b = n.body
            for x, y in zip(b, b[1:]):
                simple = (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)
                if isinstance(x, simple) and isinstance(y, simple) and not (
                    isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)
                ) and not isinstance(n, (ast.Module, ast.ClassDef)):
                    a, e = off(x.lineno, x.col_offset), off(y.end_lineno, y.end_col_offset)
                    mid = raw[off(x.end_lineno, x.end_col_offset):off(y.lineno, y.col_offset)].decode()
                    new = raw[:a].decode() + seg(y) + mid + seg(x) + raw[e:].decode()
                    try:
                        compile(new, "x", "exec")
                        out.append((x.lineno, "swap statements", new))
                    except SyntaxError:
                        pass
    return out


def one(job, dirs, scale, vdir):
    f, ln, why, new = job
    d = dirs.get()
    try:
        path = os.path.join(d, f)
        old = open(path).read()
        open(path, "w").write(new)
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=d, PYTHONHASHSEED="0")
        try:
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=20", "tests"],
                                   cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                if r.returncode:
                    return f, ln, why, "tests", new
            except subprocess.TimeoutExpired:
                return f, ln, why, "tests", new
            for pid in MAP[f].split():
                try:
                    r = subprocess.run(["python3-vt", "-B", "check.py", pid, "--scale", str(scale)], cwd=vdir, env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    return f, ln, why, "TIMEOUT " + pid, new
                if r.returncode == 1 and "VIOLATION property" in r.stdout:
                    return f, ln, why, pid, new
                if r.returncode:
                    return f, ln, why, f"ERROR {pid} rc={r.returncode} {r.stdout[-300:]}", new
            return f, ln, why, "SURVIVED", new
        finally:
            open(path, "w").write(old)
    finally:
        dirs.put(d)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--scale", type=float, default=0.4)
    ap.add_argument("--out", default="/tmp/mutants.txt")
    ap.add_argument("--sample", type=int, default=0)
    a = ap.parse_args()
    jobs = []
    for f in a.files:
        jobs += [(f, *m) for m in mutants(open("/repo/" + f).read())]
    if a.sample:
        random.Random(1).shuffle(jobs)
        jobs = jobs[: a.sample]
    print(len(jobs), "mutants", flush=True)
    base = tempfile.mkdtemp(prefix="vp-mutants-")
    dirs = queue.Queue()
    vdir = os.path.join(base, "verif")
    shutil.copytree(VERIF, vdir, ignore=shutil.ignore_patterns(".git", "evidence", "replays", "seeded"))
    for i in range(a.jobs):
        shutil.copytree("/repo", f"{base}/r{i}", ignore=shutil.ignore_patterns(".git"))
        dirs.put(f"{base}/r{i}")
    count = {}
    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "w") as o:
            for fut in cf.as_completed([ex.submit(one, j, dirs, a.scale, vdir) for j in jobs]):
                f, ln, why, res, new = fut.result()
                k = res.split()[0]
                count[k] = count.get(k, 0) + 1
                if k in ("SURVIVED", "TIMEOUT", "ERROR"):
                    line = open("/repo/" + f).read().splitlines()[ln - 1].strip()
                    nl = new.splitlines()[ln - 1].strip()
                    o.write(f"{res} {f}:{ln} [{why}] {line}   ==>   {nl}\n")
                    o.flush()
            o.write(json.dumps(count) + "\n")
    finally:
        shutil.rmtree(base)
    print(count)
