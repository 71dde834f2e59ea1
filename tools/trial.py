"""Development tool: tries hand-written bugs (tools/trials.py) against the stable tests and their check.

python3 tools/trial.py [--jobs N] [FROM [TO]]  (numbers of trials)
"""
import concurrent.futures as cf, os, queue, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
T = []
def t(prop, file, old, new, count=1):
    T.append((prop, file, old, new, count))
exec(open(os.path.join(HERE, os.environ.get("TRIALS", "trials.py"))).read())
args = sys.argv[1:]
jobs = 3
if args and args[0] == "--jobs":
    jobs = int(args[1]); args = args[2:]
lo = int(args[0]) if args else 0
hi = int(args[1]) if len(args) > 1 else len(T)
ONLY = [int(x) for x in os.environ.get("ONLY", "").split(",") if x] or range(lo, min(hi, len(T)))
if os.environ.get("SHOW"):
    for k in ONLY:
        print(f"=== {k} {T[k][0]} {T[k][1]}\n--- old\n{T[k][2]}--- new\n{T[k][3]}")
    sys.exit()
BUSY = tempfile.mkdtemp(prefix="vp-trial-")
pool = queue.Queue()
for i in range(jobs):
    d = f"{BUSY}/{i}"
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    pool.put(d)
def sh(cmd, env=None):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, **(env or {})))
def one(k):
    prop, file, old, new, count = T[k]
    d = pool.get()
    try:
        path = f"{d}/{file}"
        src = open(path).read()
        if src.count(old) != count:
            return k, f"OLD COUNT {src.count(old)}"
        try:
            open(path, "w").write(src.replace(old, new))
            r = sh(f"cd {d} && PYTHONPATH={d} timeout 120 /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --timeout=30 tests")
            tests = "tests-pass" if r.returncode == 0 else "TESTS FAIL"
            out = []
            for p in prop.split():
                c = sh(f"cd /verif && timeout 600 python3-vt -B check.py {p}", {"VERIF_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
                out.append(f"{p} rc={c.returncode}")
                if c.returncode == 1: break
            return k, f"{tests} {' '.join(out)} {'caught' if c.returncode == 1 else 'MISSED'}"
        finally:
            open(path, "w").write(src)
    finally:
        pool.put(d)
with cf.ThreadPoolExecutor(jobs) as ex:
    for f in cf.as_completed([ex.submit(one, k) for k in ONLY]):
        k, msg = f.result()
        print(f"{k:3} {T[k][0]:8} {msg}   | {T[k][3].strip().splitlines()[0][:90] if T[k][3].strip() else '(deleted)'}", flush=True)
shutil.rmtree(BUSY)
