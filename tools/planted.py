#!/usr/bin/env python3
"""Validate the planted bugs in /verif/seeded on scratch copies of /repo and
run the checks against them (own experiments, not used by any check).

  planted.py valid [ID...]     applies, tests pass, demo 0 -> nonzero
  planted.py run [ID...] [--all]   quick check of its property (--all: of every property)
Results go to tools/matrix.json.
"""
import json, os, pathlib, shutil, subprocess, sys, concurrent.futures as cf
V = pathlib.Path(__file__).resolve().parent.parent
S = V / 'seeded'
M = V / 'tools' / 'matrix.json'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']

def copy(tag, patch=None):
    w = f'/tmp/planted/{tag}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/planted', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    if patch:
        subprocess.run(['git', '-C', w, 'apply', str(patch)], check=True)
    return w

def valid(b):
    w = copy('v-' + b, S / b / 'patch.diff')
    c = copy('c-' + b)
    try:
        sh = open('/opt/vp/test.sh').read().replace('/repo', w)
        r = subprocess.run(['bash', '-c', sh, 'x', f'{w}/out.json'], capture_output=True, text=True)
        tail = [l for l in (r.stdout + r.stderr).splitlines() if 'passed' in l][-1:]
        out = open(f'{w}/out.json').read() if os.path.exists(f'{w}/out.json') else ''
        d0 = subprocess.run(['bash', str(S / b / 'demo.sh')], cwd=c, capture_output=True, text=True)
        d1 = subprocess.run(['bash', str(S / b / 'demo.sh')], cwd=w, capture_output=True, text=True)
        return b, tail, json.loads(out) if out else None, d0.returncode, d1.returncode, (d0.stdout + d0.stderr)[-300:], (d1.stdout + d1.stderr)[-300:]
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(c, ignore_errors=True)

def check(b, ids):
    w = copy('r-' + b, S / b / 'patch.diff')
    res = {}
    try:
        for i in ids:
            e = dict(os.environ, APGMC_REPO=w, VERIF_SEED='1', VERIF_TIER='quick')
            r = subprocess.run(['/opt/venv/bin/python', '-B', str(V / 'check.py'), i, 'quick'], capture_output=True, text=True, env=e, cwd=V, timeout=900)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res[i] = (r.returncode, v[:1], (r.stdout + r.stderr)[-400:] if r.returncode not in (0, 1) else '')
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return b, res

def main():
    mode, *a = sys.argv[1:]
    allp = '--all' in a
    a = [x for x in a if x != '--all']
    ids = a or sorted(p.name for p in S.iterdir())
    props = [json.loads(l)['id'] for l in open(V / 'properties.jsonl')]
    if mode == 'valid':
        with cf.ThreadPoolExecutor(6) as ex:
            for b, tail, out, d0, d1, o0, o1 in ex.map(valid, ids):
                failed = sorted(set(STABLE) - set((out or {}).get('passed', [])))[:3]
                print(b, 'OK' if d0 == 0 and d1 and not failed else 'BAD', 'tests-broken:' if failed else '', failed or '', 'demo', d0, d1, '|', o0.strip() if d0 else '', '|', o1.strip()[:160])
    else:
        mat = json.load(open(M)) if M.exists() else {}
        for b in ids:
            meta = json.load(open(S / b / 'meta.json'))
            _, res = check(b, props if allp else [meta['property']])
            e = mat.setdefault(b, {})
            e.update(property=meta['property'], needs=meta['needs'])
            old = {} if allp else {k: 1 for k in e.get('caught', [])}
            for i, (rc, v, o) in res.items():
                if rc == 1: old[i] = 1
                else: old.pop(i, None)
                if rc not in (0, 1): print('   !!', b, i, rc, o)
            e['caught'] = sorted(old)
            json.dump(mat, open(M, 'w'), indent=1, sort_keys=True)
            print(b, meta['property'], 'CAUGHT' if meta['property'] in old else 'MISSED', e['caught'], flush=True)
main()
