import json, os, shutil, subprocess, sys
W = "/tmp/seedw"
OUT = "/verif/seeded"
SEEDS = []
def seed(id, prop, file, old, new, needs, breaks, demo, count=1):
    SEEDS.append((id, prop, file, old, new, needs, breaks, demo, count))
HEAD = '''import asyncio, logging, os, sys, tempfile
sys.path.insert(0, os.getcwd())
sys.path.insert(0, os.path.join(os.getcwd(), "scripts"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import toffee
from toffee import *
from dut import FakeDUT
toffee.setup_logging(log_level=100, console_display=False)
'''
exec(open("/verif/tools/seeds/seeds.py").read())
exec(open("/verif/tools/seeds/seeds2.py").read())
exec(open("/verif/tools/seeds/seeds3.py").read())
exec(open("/verif/tools/seeds/seeds4.py").read())
exec(open("/verif/tools/seeds/seeds5.py").read())
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
only = set(sys.argv[1:])
sh(f"git -C {W} fetch -q origin && git -C {W} reset -q --hard origin/HEAD")
for id, prop, file, old, new, needs, breaks, demo, count in SEEDS:
    if only and id not in only: continue
    sh(f"git -C {W} checkout -q -- .")
    p = f"{W}/{file}"
    s = open(p).read()
    if s.count(old) != count:
        print(id, "OLD COUNT", s.count(old)); continue
    blame = sh(f"git -C {W} blame -s HEAD -- {file}").stdout.splitlines()
    open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {W} diff -U3").stdout
    # removed lines must be original
    mine = []
    ln = 0
    for l in diff.splitlines():
        if l.startswith("@@"):
            ln = int(l.split()[1][1:].split(",")[0]) - 1
        elif l.startswith("---") or l.startswith("+++"): pass
        elif l.startswith("-"):
            ln += 1
            if not blame[ln-1].startswith("^"): mine.append(l)
        elif l.startswith(" "): ln += 1
    d = f"{OUT}/{id}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(HEAD + demo)
    shutil.copy("/verif/lib/fakedut.py", f"{d}/dut.py")
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    t = sh(f"cd {W} && PYTHONPATH={W} /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --timeout=30 tests | tail -1").stdout.strip()
    g = sh(f"cd /repo && bash {d}/demo.sh")
    b = sh(f"cd {W} && bash {d}/demo.sh")
    c = sh(f"cd /verif && VERIF_REPO={W} python3-vt -B check.py {prop}")
    ok = g.returncode == 0 and b.returncode != 0 and "failed" not in t
    print(f"{id:28} {'ok ' if ok else 'BAD'} tests[{t}] demo {g.returncode}/{b.returncode} mine={len(mine)} check {prop} rc={c.returncode}")
    if not ok: print(t, g.stdout[-800:], b.stdout[-300:])
    for l in mine: print("   not original:", l)
    sh(f"git -C {W} checkout -q -- .")
