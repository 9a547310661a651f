"""Plants the changes of a list (Python file defining B = [(name, property, [(file, old, new)...])]) one at
a time in scratch copies of /repo, keeps those that pass the existing tests, and reports whether the
property's quick check notices. usage: plant.py LIST.py [names or properties...]"""
import os, shutil, subprocess, sys, importlib.util, re
from concurrent.futures import ThreadPoolExecutor
import queue, threading
spec = importlib.util.spec_from_file_location("l", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
W = int(os.environ.get("W", "2")); BASE = "/tmp/plant"
TESTS = os.environ.get("TESTS", "1") == "1"
def sh(c, cwd, t=900):
    try: return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired: return None
def prep(w):
    d = f"{BASE}/w{w}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(f"cp -a /repo {d}/repo && cp -a /verif/sim {d}/sim && cp /verif/known-findings.txt {d}/", "/")
    t = open(f"{d}/sim/Cargo.toml").read().replace('path = "/repo"', f'path = "{d}/repo"'); open(f"{d}/sim/Cargo.toml", "w").write(t)
    return d
def one(d, b):
    name, prop, edits = b[:3]
    sh("git checkout -- .", f"{d}/repo")
    for f, old, new in edits:
        s = open(f"{d}/repo/{f}").read()
        if s.count(old) < 1: return f"{name} {prop} NOEDIT {old[:50]!r}"
        open(f"{d}/repo/{f}", "w").write(s.replace(old, new, 1))
    t = ""
    if TESTS:
        x = sh("cargo test --offline --lib 2>&1 | tail -40", f"{d}/repo")
        if x is None or "29 passed" not in x.stdout:
            e = re.findall(r"^error.*|^test .*FAILED", x.stdout if x else "timeout", re.M)
            return f"{name} {prop} TESTS {e[:3]}"
    x = sh("cargo build --release --offline 2>&1 | tail -30", f"{d}/sim")
    if "Finished" not in x.stdout: return f"{name} {prop} NOBUILD {x.stdout[-400:]}"
    res = []
    for p in prop.split("+"):
        x = sh(f"./target/release/nmea-sim check {p} --workers {8 // W + 1} --out {d}/ev --findings {d}/known-findings.txt {os.environ.get('ARGS', '')}", f"{d}/sim")
        if x is None: res.append(p + " timeout"); continue
        r = re.search(r"VIOLATION.*run(\d+)", x.stdout)
        tm = re.search(r"([\d.]+) s$", x.stdout.strip())
        res.append(f"{p} rc={x.returncode} run={r.group(1) if r else '-'}" + (" " + x.stdout[-300:] if x.returncode not in (0, 1) else ""))
    return f"{name} " + "; ".join(res)
q = queue.Queue()
for b in m.B:
    if not only or b[0] in only or b[1] in only: q.put(b)
lk = threading.Lock()
def work(w):
    d = prep(w)
    while True:
        try: b = q.get_nowait()
        except queue.Empty: break
        r = one(d, b)
        with lock_: print(r, flush=True)
    shutil.rmtree(d, ignore_errors=True)
lock_ = lk
ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
