"""Mutation campaign: plants one small change after another in scratch copies of /repo, keeps those that
pass the existing tests, and reports which checks notice. usage: mutate.py OUT.jsonl SEED COUNT [filter]"""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
OUT, SEED, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILT = sys.argv[4] if len(sys.argv) > 4 else ""
W = 4
BASE = "/tmp/mut"
PROPS = ["C%02d" % i for i in range(1, 22)]

def code_lines(path):
    ls = open(path).read().split("\n")
    n = len(ls)
    for i, l in enumerate(ls):
        if "#[cfg(test)]" in l:
            n = i
            break
    return ls, n

def mutants():
    out = []
    for root, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            p = os.path.join(root, f)
            if FILT and not re.search(FILT, p): continue
            ls, n = code_lines(p)
            for i in range(n):
                l = ls[i]
                s = l.strip()
                if not s or s.startswith(("//", "use ", "#[", "/*", "*", "pub mod", "mod ", "extern", "debug!", "warn!")): continue
                if re.search(r"^\d|^[A-Z][a-z].*(20\d\d|License)", s) and "=>" not in s: continue
                if re.match(r"\d+ => Some\(\"", s) or re.match(r"[\w]+(\([^)]*\))?, *//", s) or "ParseError::" in s: continue
                code_end = l.find("//")
                cand = []
                for m in re.finditer(r"(?<![\w.\"])(0x[0-9A-Fa-f]+|\d+(\.\d+)?)(?![\w.\"])", l):
                    t = m.group(0)
                    if t.startswith("0x"): v = int(t, 16); reps = [hex(v + 1), hex(max(v - 1, 0))]
                    elif "." in t: reps = [str(float(t) + 1.0)]
                    else: v = int(t); reps = [str(v + 1)] + ([str(v - 1)] if v else [])
                    for r in reps: cand.append(l[:m.start()] + r + l[m.end():])
                for a, b in [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" && ", " || "),
                             (" || ", " && "), (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" | ", " & "), (" & ", " | "), (" << ", " >> "),
                             ("true", "false"), ("false", "true"), ("if let Some", "if let None_"), (".remove(&", ".get(&"),
                             ("pick_u64", "pick_i64"), ("pick_i64", "pick_u64"), ("key1", "key2"), ("key2", "key1"), ("part_a", "part_b"), ("part_b", "part_a"),
                             ("self.", "other."), ("other.", "self."), ("pull_", "contains_"), ("..=", ".."), ("latitude", "longitude")]:
                    for m in re.finditer(re.escape(a), l):
                        cand.append(l[:m.start()] + b + l[m.end():])
                for m in re.finditer(r"\"([A-Z$!*,]{1,4})\"", l):
                    cand.append(l[:m.start()] + '"' + m.group(1)[:-1] + "Q" + '"' + l[m.end():])
                m = re.search(r"=> (\{ ?)?(Some\()?([A-Z]\w*::)(\w+)", l)
                if m:
                    for k in (1, -1):
                        if 0 <= i + k < n:
                            m2 = re.search(r"=> (\{ ?)?(Some\()?([A-Z]\w*::)(\w+)", ls[i + k])
                            if m2 and m2.group(3) == m.group(3) and m2.group(4) != m.group(4):
                                cand.append(l[:m.start(4)] + m2.group(4) + l[m.end(4):])
                if re.search(r"Some\(", l) and "if let" not in l and "=>" not in l.split("Some(")[0][-0:]:
                    pass
                if s.endswith(";") and not s.startswith(("let ", "return", "}")):
                    cand.append(re.match(r"\s*", l).group(0) + "// removed")
                for c in cand:
                    if c != l and "None_" not in c and (code_end < 0 or c[:code_end] != l[:code_end]): out.append((p, i, l, c))
    return out

def sh(cmd, cwd, t):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
    except subprocess.TimeoutExpired:
        return None

def prep(w):
    d = f"{BASE}/w{w}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(f"cp -a /repo {d}/repo && cp -a /verif/sim {d}/sim && cp /verif/known-findings.txt {d}/", "/", 120)
    t = open(f"{d}/sim/Cargo.toml").read().replace('path = "/repo"', f'path = "{d}/repo"')
    open(f"{d}/sim/Cargo.toml", "w").write(t)
    return d

def one(d, m):
    p, i, a, b = m
    q = p.replace("/repo/", f"{d}/repo/")
    src = open(p).read().split("\n")
    assert src[i] == a
    src[i] = b
    open(q, "w").write("\n".join(src))
    r = dict(file=p, line=i + 1, old=a.strip(), new=b.strip())
    try:
        x = sh("cargo test --offline --lib 2>&1 | tail -60", f"{d}/repo", 120)
        if x is None or "test result: ok. 29 passed" not in x.stdout:
            if x is not None and "test result: ok" in x.stdout: r["status"] = "odd"
            else: r["status"] = "nocompile" if x is not None and "test result" not in x.stdout else "tests"
            return r
        x = sh("cargo build --release --offline 2>&1 | tail -5", f"{d}/sim", 300)
        if x is None or "Finished" not in x.stdout:
            r["status"] = "simbuild"; return r
        caught = []
        for c in PROPS:
            runs = 30 if c == "C13" else 300
            x = sh(f"./target/release/nmea-sim check {c} --runs {runs} --workers 2 --secs 30 --out {d}/ev --findings {d}/known-findings.txt", f"{d}/sim", 200)
            if x is None: caught.append(c + ":timeout")
            elif x.returncode == 1: caught.append(c)
            elif x.returncode != 0: caught.append(c + ":err")
        r["status"] = "caught" if caught else "missed"
        r["by"] = caught
        return r
    finally:
        shutil.copy(p, q)

ms = mutants()
random.Random(SEED).shuffle(ms)
ms = ms[:COUNT]
print(len(ms), "mutants")
import queue, threading
qq = queue.Queue()
for m in ms: qq.put(m)
lock = threading.Lock()
def work(w):
    d = prep(w)
    while True:
        try: m = qq.get_nowait()
        except queue.Empty: break
        r = one(d, m)
        with lock:
            open(OUT, "a").write(json.dumps(r) + "\n")
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
