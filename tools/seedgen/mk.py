"""mk.py: builds /verif/seeded/<id> from bugs.py entries; validates."""
import os, subprocess, sys, shutil, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib; bugs = importlib.import_module('bugs').BUGS
def sh(c, cwd, t=400):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
only = sys.argv[1:]
R = '/tmp/seed/repo'; os.makedirs('/tmp/seed', exist_ok=True)
for b in bugs:
    if only and b['id'] not in only: continue
    shutil.rmtree(R, ignore_errors=True)
    sh(f'cp -a /repo {R}', '/')
    ok = True
    for f, old, new in b['edits']:
        s = open(f'{R}/{f}').read()
        if s.count(old) != 1: print(b['id'], 'EDIT MATCHES', s.count(old), old[:60]); ok = False; break
        open(f'{R}/{f}', 'w').write(s.replace(old, new))
    if not ok: continue
    d = f"/verif/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    diff = sh('git diff', R).stdout
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/main.rs', 'w').write(b['demo'])
    shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demo.sh'), f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
    x = sh('cargo test --offline --lib 2>&1 | tail -30', R)
    t = 'test result: ok. 29 passed' in x.stdout
    good = sh(f'sh {d}/demo.sh', '/repo')
    bad = sh(f'sh {d}/demo.sh', R)
    print(b['id'], 'tests', t, 'demo clean', good.returncode, 'demo bug', bad.returncode, '' if t and good.returncode == 0 and bad.returncode not in (0, 2) else 'PROBLEM\n' + x.stdout[-300:] + good.stdout[-300:] + bad.stdout[-300:])
    sys.stdout.flush()
shutil.rmtree(R, ignore_errors=True)
