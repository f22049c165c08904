"""Plant bugs: python tools/plant.py SPEC.py [ID ...]

SPEC.py defines BUGS, a list of dicts with id, property, edits [(file, old, new)], demo (python
source), needs, what_it_breaks. Every bug is tried in a scratch copy of /repo: the demonstration
must pass on the unchanged tree and fail with the change, the stable tests must pass, the changed
lines must be lines of the original repository. What holds is written to seeded/<id>/, together
with whether the quick check of the property catches it (seeded_results.json).
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '11fbcf2'
PY = '/opt/venv/bin/python'
PRE = """import math, sys, warnings
warnings.filterwarnings('ignore')
import torch, numpy as np
import pytorch_kinematics as pk
import pytorch_kinematics.transforms as tf
torch.manual_seed(0)

def check(cond, msg='property broken'):
    if not bool(cond):
        print('FAIL', msg)
        sys.exit(1)

"""
SH = '#!/bin/sh\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def original_lines(diff_cwd):
    """Do the removed lines of the diff exist in the original repository (not added by fix commits)?"""
    _, files = sh('git diff --name-only', diff_cwd)
    for f in files.split():
        _, d = sh('git diff -U0 -- ' + f, diff_cwd)
        _, blame = sh(f'git blame -s HEAD -- {f}', diff_cwd)
        bl = blame.splitlines()
        for h in d.splitlines():
            if h.startswith('@@'):
                rng = h.split()[1][1:].split(',')
                start, n = int(rng[0]), int(rng[1]) if len(rng) > 1 else 1
                for k in range(start, start + n):
                    if bl[k - 1].startswith('^'):
                        return True
    return False


def work(b, slot):
    wt = f'/tmp/plant_wt/{b["id"]}'
    out = {'id': b['id'], 'property': b['property']}
    sh(f'mkdir -p /tmp/plant_wt; rm -rf {wt}; cp -a /repo {wt}')
    try:
        d = f'/tmp/plant_demo/{b["id"]}'
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w') as fh:
            fh.write(PRE + b['demo'].strip() + "\nprint('OK')\n")
        with open(d + '/demo.sh', 'w') as fh:
            fh.write(SH)
        env = {'OMP_NUM_THREADS': '2'}
        rc, o = sh(f'sh {d}/demo.sh', wt, env)
        if rc != 0:
            out['status'] = 'demo fails on clean: ' + o[-600:]
            return out
        for f, old, new in b['edits']:
            p = f'{wt}/src/pytorch_kinematics/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                out['status'] = f'old text found {s.count(old)} times in {f}: {old[:60]!r}'
                return out
            open(p, 'w').write(s.replace(old, new))
        _, diff = sh('git diff', wt)
        out['original'] = original_lines(wt)
        rc, o = sh(f'sh {d}/demo.sh', wt, env)
        out['demo_patched'] = rc
        if rc == 0:
            out['status'] = 'demo passes with the change'
            return out
        out['demo_says'] = o.strip().splitlines()[-1][-200:] if o.strip() else ''
        rc, o = sh(f'{PY} run.py {b["property"]} --tier quick --seed 1', VERIF,
                   {'PKV_REPO': wt, 'OMP_NUM_THREADS': '2', 'PKV_NO_EVIDENCE': '1'})
        out['check_rc'] = rc
        out['check_says'] = '\n'.join(l for l in o.splitlines() if 'VIOLATION' in l)[-300:] or o[-300:]
        rc, o = sh(f'{PY} -m pytest -q -x -p no:cacheprovider --timeout=300 --ignore=tests/test_menagerie.py '
                   '--ignore=tests/mujoco_menagerie tests', wt,
                   {'PYTHONPATH': wt + '/src', 'OMP_NUM_THREADS': '2'})
        out['tests'] = o.strip().splitlines()[-1]
        stable = json.load(open('/opt/vp/BASELINE.json'))
        if rc != 0 and ' failed' in o:
            out['status'] = 'tests fail: ' + '; '.join(l for l in o.splitlines() if l.startswith('FAILED'))[:300]
            return out
        if not out['original']:
            out['status'] = 'changes only lines added by fix commits'
            return out
        dst = f'{VERIF}/seeded/{b["id"]}'
        os.makedirs(dst, exist_ok=True)
        sh(f'cp {d}/demo.py {d}/demo.sh {dst}/')
        open(dst + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what_it_breaks']},
                  open(dst + '/meta.json', 'w'), indent=1)
        out['status'] = 'kept, ' + ('caught' if out['check_rc'] == 1 else 'MISSED')
        return out
    finally:
        sh(f'rm -rf {wt}')


def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:]
    bugs = [b for b in m.BUGS if not ids or b['id'] in ids]
    resf = VERIF + '/seeded_results.json'
    os.makedirs(VERIF + '/seeded', exist_ok=True)
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', 4))) as ex:
        for r in ex.map(lambda ib: work(ib[1], ib[0]), enumerate(bugs)):
            print(json.dumps(r), flush=True)
            res = json.load(open(resf)) if os.path.exists(resf) else {}
            res[r['id']] = {k: r.get(k) for k in ('property', 'status', 'check_says', 'demo_says')}
            json.dump(res, open(resf, 'w'), indent=1, sort_keys=True)


if __name__ == '__main__':
    main()
