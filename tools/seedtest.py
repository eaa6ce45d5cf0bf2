#!/usr/bin/env python3
"""Development aid: runs all checks on each seeded bug in scratch copies; writes tools/caught.json.  seedtest.py [-j N] [NAME...]"""
import json, os, re, subprocess, sys, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('SELFTEST', '/tmp/seedtest')
OUT = os.path.join(V, 'tools', 'caught.json')


def sh(c, **k):
    r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, executable='/bin/bash', **k)
    return r.returncode, r.stdout


def work(n):
    k = mp.current_process()._identity[0]
    sc = f'{W}/r{k}'
    head = sh('git -C /repo rev-parse HEAD')[1].strip()
    if not os.path.exists(sc):
        sh(f'git clone -q /repo {sc} && cp /repo/Cargo.lock {sc}/')
    sh(f'cd {sc} && git fetch -q && git checkout -q -f {head}')
    rc, o = sh(f'cd {sc} && git apply {V}/seeded/{n}/patch.diff && touch src/*.rs */src/*.rs')
    if rc:
        return n, ['DOES NOT APPLY']
    sh(f'rm -rf {W}/t{k}/{{,t/}}*/.fingerprint/{{client_side_validation,commit_verify,single_use_seals,commit_encoding_derive}}-*')
    env = {**os.environ, 'VERIF_REPO': sc, 'VERIF_CACHE': f'{W}/c{k}', 'VERIF_EVIDENCE': f'{W}/e{k}', 'VERIF_TARGET': f'{W}/t{k}'}
    rc, o = sh(f'cd {V} && python3 check.py', env=env)
    open(f'{W}/{n}.log', 'w').write(o)
    return n, sorted({l.split('property=')[1].split()[0] for l in o.splitlines() if l.startswith('VIOLATION')}) if 'does not build' not in o else ['DOES NOT BUILD']


if __name__ == '__main__':
    a = sys.argv[1:]
    j = 4
    if a[:1] == ['-j']:
        j, a = int(a[1]), a[2:]
    names = a or sorted(os.listdir(V + '/seeded'))
    os.makedirs(W, exist_ok=True)
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    with mp.Pool(min(j, len(names))) as p:
        for n, r in p.imap_unordered(work, names):
            m = json.load(open(f'{V}/seeded/{n}/meta.json'))
            print('  ' if m['property'] in r else '!!', n, m['property'], r, flush=True)
            res[n] = r
    res = {k: v for k, v in sorted(res.items()) if os.path.exists(f'{V}/seeded/{k}')}
    json.dump(res, open(OUT, 'w'), indent=0)
