#!/usr/bin/env python3
"""Development aid, not a check: tools/selftest.py [-j N] [NAME...]

Applies small edits (tools/selftest/*.py: lists EDITS of (name, expected, [(file, old, new)...])) to scratch copies of
/repo, one at a time, and runs the checks on each.  `expected` is the set of properties one of which has to report
the edit, or an empty set for edits that keep the behaviour, on which every check has to stay quiet."""
import fcntl, glob, multiprocessing as mp, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('SELFTEST', '/tmp/selftest')


def sh(c, **k):
    r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return r.returncode, r.stdout


def work(job):
    name, expected, files, ids = job
    k = mp.current_process()._identity[0]
    sc = f'{W}/r{k}'
    head = sh('git -C /repo rev-parse HEAD')[1].strip()
    if not os.path.exists(sc):
        sh(f'git clone -q /repo {sc} && cp /repo/Cargo.lock {sc}/ 2>/dev/null')
    sh(f'cd {sc} && git fetch -q && git checkout -q -f {head}')
    for f, a, b in files:
        s = open(f'{sc}/{f}').read()
        if s.count(a) != 1:
            return name, expected, f'EDIT DOES NOT APPLY ({s.count(a)} times in {f}): {a[:80]}'
        open(f'{sc}/{f}', 'w').write(s.replace(a, b))
    sh(f'cd {sc} && touch src/*.rs */src/*.rs && sleep 0.1')
    sh(f'rm -rf {W}/t{k}/{{,t/}}*/.fingerprint/' + '{client_side_validation,commit_verify,single_use_seals,commit_encoding_derive}-*', executable='/bin/bash')
    env = {**os.environ, 'VERIF_REPO': sc, 'VERIF_CACHE': f'{W}/c{k}', 'VERIF_EVIDENCE': f'{W}/e{k}', 'VERIF_TARGET': f'{W}/t{k}'}
    rc, o = sh(f'cd {V} && python3 check.py {" ".join(ids)}', env=env)
    open(f'{W}/{name}.log', 'w').write(o)
    hit = {l.split('property=')[1].split()[0] for l in o.splitlines() if l.startswith('VIOLATION')}
    if 'does not build' in o:
        return name, expected, 'DOES NOT BUILD'
    if expected:
        return name, expected, 'caught by ' + ' '.join(sorted(hit)) if hit & expected else 'MISSED' + (f' (only {" ".join(sorted(hit))})' if hit else '')
    return name, expected, 'quiet' if not hit else 'FALSE ALARM by ' + ' '.join(sorted(hit))


def main():
    a = sys.argv[1:]
    n = 6
    ids = []
    while a and a[0] in ('-j', '-c'):
        if a[0] == '-j':
            n = int(a[1])
        else:
            ids = a[1].split(',')
        a = a[2:]
    jobs = []
    for f in sorted(glob.glob(V + '/tools/selftest/*.py')):
        g = {}
        exec(open(f).read(), g)
        jobs += [(x[0], set(x[1].split()), x[2], ids) for x in g['EDITS'] if not a or x[0] in a or os.path.basename(f)[:-3] in a]
    os.makedirs(W, exist_ok=True)
    lock = open(W + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)            # one run at a time: the scratch copies are shared
    sh(f'git -C {W}/r1 status') 
    bad = 0
    with mp.Pool(min(n, len(jobs))) as p:
        for name, e, r in p.imap_unordered(work, jobs):
            flag = r[0].isupper()
            bad += flag
            print(('!! ' if flag else '   ') + f'{name} [{" ".join(sorted(e)) or "keeps behaviour"}]: {r}', flush=True)
    print(f'{len(jobs)} edits, {bad} to look at')


if __name__ == '__main__':
    main()
