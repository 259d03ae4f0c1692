#!/usr/bin/env python3
"""Runs checks against the seeded changes, each in a mount namespace with a copy of /repo and /verif in
place of the real ones.  matrix.py [--all] [--jobs N] [--out FILE] [SEED-PREFIX...]
Default: only the check of the seed's own property; --all: every check."""
import json, os, subprocess, sys, shutil, argparse, threading, queue, time
V = '/verif'
ap = argparse.ArgumentParser()
ap.add_argument('--all', action='store_true'); ap.add_argument('--jobs', type=int, default=3)
ap.add_argument('--out'); ap.add_argument('--dir', default=V + '/seeded'); ap.add_argument('seeds', nargs='*')
ap.add_argument('--seed', default='1')
a = ap.parse_args()
ids = [s for s in sorted(os.listdir(a.dir)) if not a.seeds or any(s.startswith(p) for p in a.seeds)]
ALL = [f'C{i:02d}' for i in range(1, 100) if os.path.exists(f'{V}/harness/src/bin/c{i:02d}.rs')]
work = queue.Queue()
for s in ids:
    prop = json.load(open(f'{a.dir}/{s}/meta.json'))['property']
    work.put((s, prop))
res, lock = {}, threading.Lock()
def worker(n):
    w = f'/tmp/mx/w{os.getpid()}_{n}'
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run(f'cp -a /repo {w}/repo && mkdir {w}/verif && cp -a {V}/. {w}/verif/', shell=True, check=True)
    while True:
        try: s, prop = work.get_nowait()
        except queue.Empty: break
        out = {}
        for c in (ALL if a.all else [prop]):
            t = time.time()
            p = subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /repo && git checkout -q -- . && '
                f'git apply {a.dir if not a.dir.startswith("/verif") else "/verif/seeded"}/{s}/patch.diff && cd /verif && VERIF_SEED={a.seed} VERIF_TIER=quick timeout 900 bash check.sh {c}; rc=$?; git -C /repo checkout -q -- .; exit $rc'],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
            out[c] = (p.returncode, round(time.time() - t), (v or p.stdout.strip().splitlines() or [''])[0][:200])
        with lock:
            res[s] = out
            own = out.get(prop)
            print(s, prop, 'CAUGHT' if own[0] == 1 and f'property={prop}' in own[2] else f'MISSED rc={own[0]}', f'{own[1]}s', [c for c in out if out[c][0] == 1], [c for c in out if out[c][0] not in (0, 1)], flush=True)
            if a.out: json.dump(res, open(a.out, 'w'), indent=1)
    shutil.rmtree(w, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(a.jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
