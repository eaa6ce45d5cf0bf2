#!/usr/bin/env python3
"""check.py ID [ID...] | --list | --setup : decides properties of /repo from its current source."""
import fcntl, hashlib, importlib, json, os, shutil, subprocess, sys, tempfile, time, traceback

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
EV = os.environ.get('VERIF_EVIDENCE', os.path.join(V, 'evidence'))
CACHE = os.environ.get('VERIF_CACHE', os.path.join(V, '.cache'))
sys.path[:0] = [os.path.join(V, 'engine'), V]

CONFIGS = {
    'all': ['--workspace', '--all-features'],
    'default': ['--workspace'],
    'bare': ['--workspace', '--no-default-features'],
}


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def tree_files(root, skip=('target', '.git')):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in skip and not x.startswith('.git')]
        for f in fs:
            p = os.path.join(d, f)
            if os.path.isfile(p):
                out.append(p)
    return out


class BuildError(Exception):
    pass


_toolchain = None


def toolchain():
    global _toolchain
    if _toolchain is None:
        rc, s = sh(['rustc', '+nightly', '--print', 'sysroot'])
        _toolchain = s.strip().splitlines()[-1] if rc == 0 else ''
        rc, v = sh(['rustc', '+nightly', '-V'])
        _toolchain = (_toolchain, v.strip())
    return _toolchain


def driver():
    src = [os.path.join(V, 'driver', x) for x in ('Cargo.toml', 'Cargo.lock')] + \
        tree_files(os.path.join(V, 'driver', 'src'))
    key = hashlib.sha256((file_hash(src) + toolchain()[1]).encode()).hexdigest()[:16]
    exe = os.path.join(CACHE, 'driver-' + key)
    if os.path.exists(exe):
        return exe, key
    t = tempfile.mkdtemp(prefix='drv', dir=CACHE)
    try:
        rc, o = sh(['cargo', '+nightly', 'build', '--release', '--offline', '--manifest-path',
                    os.path.join(V, 'driver', 'Cargo.toml')], env={**os.environ, 'CARGO_TARGET_DIR': t})
        if rc:
            raise BuildError('the MIR driver does not build:\n' + o[-3000:])
        tmp = exe + '.%d' % os.getpid()
        shutil.copy2(os.path.join(t, 'release', 'mirdump'), tmp)
        os.rename(tmp, exe)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return exe, key


def run_driver(manifest_dir, config, args, out, target, crates=None):
    exe, _ = driver()
    env = {**os.environ, 'LD_LIBRARY_PATH': os.path.join(toolchain()[0], 'lib'), 'MIRDUMP_OUT': out,
           'MIRDUMP_CONFIG': config, 'CARGO_TARGET_DIR': target}
    if crates:
        env['RUSTC_WRAPPER'], env['MIRDUMP_CRATES'] = exe, ','.join(crates)
    else:
        env['RUSTC_WORKSPACE_WRAPPER'] = exe
    env.pop('RUSTFLAGS', None)
    return sh(['cargo', '+nightly', 'check', '--offline'] + args, cwd=manifest_dir, env=env)


def run_witness(w, out, target):
    """Type-checks every program of the witness crate, keeping what the compiler reports about each."""
    env = {**os.environ, 'CARGO_TARGET_DIR': target}
    for v in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
        env.pop(v, None)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--bins', '--keep-going', '--message-format=json'], cwd=w, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errors, bad = [], []
    for l in r.stdout.splitlines():
        j = json.loads(l) if l.startswith('{') else {}
        if j.get('reason') != 'compiler-message' or not j['message']['level'].startswith('error'):
            continue
        m = j['message']
        if 'bin' not in j['target']['kind']:
            bad.append(m['rendered'])
        elif m['spans']:
            sp = [x for x in m['spans'] if x['is_primary']][0]
            while not sp['file_name'].startswith('src/bin/') and sp.get('expansion'):
                sp = sp['expansion']['span']
            errors.append({'program': j['target']['name'], 'line': sp['line_start'], 'code': (m['code'] or {}).get('code') or '', 'message': m['message']})
    done = [json.loads(l)['target']['name'] for l in r.stdout.splitlines() if l.startswith('{"reason":"compiler-artifact"') and '"bin"' in l]
    if bad or not done and not errors:
        return 1, '\n'.join(bad) or r.stderr
    with open(os.path.join(out, 'witness.json'), 'w') as f:
        json.dump({'errors': errors, 'accepted': done}, f)
    return 0, ''


class Dumps:
    """MIR of the current /repo (and of the fixture crate built against it), per feature configuration.
    Keyed by the content of every source and manifest file, so that an edit always makes a new one."""

    def __init__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.memo = {}
        self.key = None

    def repo_key(self):
        if self.key is None:
            fs = tree_files(REPO)
            self.key = file_hash(fs)
        return self.key

    def __call__(self, config):
        if config in self.memo:
            return self.memo[config]
        with open(os.path.join(CACHE, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            _, dk = driver()
            fx = config in ('fixture', 'witness')
            k = self.repo_key() + dk
            if fx:
                k += file_hash(tree_files(os.path.join(V, config)))
            d = os.path.join(CACHE, 'dump-' + config + '-' + hashlib.sha256(k.encode()).hexdigest()[:20])
            if not os.path.exists(os.path.join(d, 'done')):
                for old in os.listdir(CACHE):
                    if old.startswith('dump-' + config + '-'):
                        shutil.rmtree(os.path.join(CACHE, old), ignore_errors=True)
                os.makedirs(d)
                keep = os.environ.get('VERIF_TARGET')    # development only: reuse the build of the dependencies
                t = keep or tempfile.mkdtemp(prefix='tgt', dir=CACHE)
                try:
                    if fx:
                        w = os.path.join(t, 'w')
                        shutil.rmtree(w, ignore_errors=True)
                        shutil.copytree(os.path.join(V, config), w)
                        m = open(os.path.join(w, 'Cargo.toml')).read().replace('@REPO@', REPO)
                        open(os.path.join(w, 'Cargo.toml'), 'w').write(m)
                        shutil.copy(os.path.join(REPO, 'Cargo.lock'), w) if os.path.exists(os.path.join(REPO, 'Cargo.lock')) else None
                        if config == 'fixture':
                            rc, o = run_driver(w, config, [], d, os.path.join(t, 't'), ('fixture', 'commit_verify', 'single_use_seals', 'client_side_validation'))
                        else:
                            rc, o = run_witness(w, d, os.path.join(t, 't'))
                    else:
                        rc, o = run_driver(REPO, config, CONFIGS[config], d, t)
                finally:
                    if keep is None:
                        shutil.rmtree(t, ignore_errors=True)
                if rc:
                    shutil.rmtree(d, ignore_errors=True)
                    raise BuildError(f'configuration "{config}" of {REPO} does not build:\n' + o[-4000:])
                open(os.path.join(d, 'done'), 'w').write('ok')
        self.memo[config] = d
        return d


def load_rules():
    import rules
    for f in sorted(os.listdir(os.path.join(V, 'rules'))):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('rules.' + f[:-3])
    return rules.PROPS


def known_findings():
    p = os.path.join(V, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def run(pid, dumps, tier, seed):
    from ctx import Ctx
    props = load_rules()
    p = props[pid]
    t0 = time.time()
    c = Ctx(pid, dumps, tier)
    try:
        p.fn(c)
    except BuildError as e:
        c.violate('build', 'build', str(e))
    except Exception as e:
        # fail closed: a tree the analysis cannot cope with is not shown to satisfy the property
        c.violate('analysis', 'analysis', 'the analysis stopped: ' + ''.join(traceback.format_exception_only(e)).strip())
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    c.count('obligations', len(c.obligations), p.floor)
    known = [f for f in known_findings() if f['property'] == pid and f.get('status', 'open') == 'open']
    viol, shown = [], []
    for v in c.violations:
        k = next((f for f in known if f['key'] == v['key'] and f['where'] == v['where']
                  and (f.get('contains') is None or f['contains'] in v['message'])), None)
        if k:
            shown.append(k) if k not in shown else None
        else:
            viol.append(v)
    wall = time.time() - t0
    print(f'== {pid} {p.title}')
    for r in c.rules:
        print('rule: ' + r)
    print(f'analysed: {len(c.fns)} functions, {len(c.obligations)} path obligations; '
          + ', '.join(f'{k}={v}' for k, v in c.counts.items()))
    for k in shown:
        print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    os.makedirs(EV, exist_ok=True)
    rep = os.path.join(EV, pid + '.violations.txt')
    if viol:
        with open(rep, 'w') as f:
            for v in viol:
                f.write(f'{v["where"]}\n  rule: {v["key"]}\n  {v["message"]}\n\n')
                if viol.index(v) < 12:
                    print(f'  at {v["where"]} [{v["key"]}]\n    {v["message"][:1500]}')
    elif os.path.exists(rep):
        os.remove(rep)
    samples = []
    for o in c.obligations[:: max(1, len(c.obligations) // 12)][:14]:
        samples.append({'function': o.where, 'rule': o.key, 'path': o.detail[:400]})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': p.level,
        'coverage': {
            'explanation': p.how,
            'functions_analysed': sorted(c.fns),
            'path_obligations': len(c.obligations),
            'counts': c.counts,
            'rules': c.rules,
            'samples': samples,
            'known_findings': [k['what'] for k in shown],
            'notes': c.notes,
        },
        'assumptions': p.assume,
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    with open(os.path.join(EV, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if viol:
        print(f'VIOLATION property={pid} replay={rep}')
    else:
        print(f'{pid}: holds ({wall:.1f} s)')
    return not viol


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in argv:
        tier = 'thorough'
        argv = [a for a in argv if a != '--thorough']
    os.makedirs(CACHE, exist_ok=True)
    if argv == ['--setup']:
        driver()
        return 0
    if argv == ['--list']:
        for k, p in sorted(load_rules().items()):
            print(k, p.title)
        return 0
    dumps = Dumps()
    ids = argv or sorted(load_rules())
    good = True
    for i in ids:
        good &= run(i, dumps, tier, seed)
    return 0 if good else 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
