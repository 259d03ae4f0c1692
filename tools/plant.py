#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in tools/seeds/*.py: makes the change in a scratch
copy of /repo, confirms that it builds, passes the tests and that the demonstration tells the two
apart, and keeps it only then.   plant.py [ID-PREFIX...]"""
import json, os, shutil, subprocess, sys, glob, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
class Seed:
    def __init__(s, id, prop, edits, what, needs, demo, mini=False, shim=False, ct=False):
        s.id, s.prop, s.edits, s.what, s.needs, s.demo, s.mini, s.shim, s.ct = id, prop, edits, what, needs, demo, mini, shim, ct
        SEEDS.append(s)
def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    exec(compile(open(f).read(), f, 'exec'))
want = sys.argv[1:]
todo = [s for s in SEEDS if not want or any(s.id.startswith(w) for w in want)]
assert len({s.id for s in SEEDS}) == len(SEEDS)
def one(s):
    w = '/tmp/plant-' + s.id
    shutil.rmtree(w, ignore_errors=True)
    sh(f'cp -a /repo {w}', '/')
    try:
        out = V + '/seeded/' + s.id
        stage = w + '-demo'
        shutil.rmtree(stage, ignore_errors=True)
        os.makedirs(stage)
        open(stage + '/demo.rs', 'w').write(s.demo.strip() + '\n')
        shutil.copy(V + '/tools/demo/demo.sh', stage)
        shutil.copy('/repo/Cargo.lock', stage)
        if s.mini:
            shutil.copy(V + '/tools/demo/mini.rs', stage)
        if s.ct:
            open(stage + '/no-assertions', 'w').write('built without assertions, as a user does\n')
        if s.shim:
            shutil.copytree(V + '/harness/getrandom-shim', stage + '/getrandom-shim', ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
        rc, o = sh(f'bash {stage}/demo.sh', w)
        if rc != 0:
            return f'demo fails on the unchanged tree ({rc}): {o[-2500:]}'
        for f, old, new in s.edits:
            p = w + '/src/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return f'{f}: {t.count(old)} matches for {old!r}'
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run('git diff', cwd=w, shell=True, stdout=subprocess.PIPE, text=True).stdout
        rc, o = sh('. /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E "^test result|FAILED|failed|^error|panicked"', w)
        if ' 24 passed; 0 failed' not in o:
            return f'tests: {o}'
        rc, o = sh(f'bash {stage}/demo.sh', w)
        if rc == 0:
            return 'demo passes with the change'
        if rc == 3 or rc == 2:
            return f'demo does not build with the change: {o[-1500:]}'
        tail = ' / '.join(l for l in o.strip().splitlines() if 'RUST_BACKTRACE' not in l)[-160:]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(stage, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': s.prop, 'needs': s.needs, 'what_it_breaks': s.what}, open(out + '/meta.json', 'w'), indent=1)
        return f'ok ({rc}): {tail}'
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + '-demo', ignore_errors=True)
from concurrent.futures import ThreadPoolExecutor
def safe(s):
    try: return one(s)
    except Exception as e: return f'EXC {e!r}'
with ThreadPoolExecutor(6) as ex:
    for s, r in zip(todo, ex.map(safe, todo)):
        print(s.id, r, flush=True)
