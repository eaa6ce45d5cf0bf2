import re
from rules import prop
from spec import *
from ctx import *
from load import show_op

CRATES = ('commit_verify', 'client_side_validation', 'single_use_seals')
CV = 'commit_verify::'
SOURCES = [
    ('the clock', r'^std::time::|^core::time::.*now|^std::sys::time'),
    ('the environment', r'^std::env::|^std::process::|^std::os::'),
    ('files, devices or the network', r'^std::fs::|^std::net::|^std::io::stdio::|^std::io::(stdin|stdout|stderr)'),
    ('threads', r'^std::thread::|^std::sync::(mpsc|mpmc|poison)|^core::sync::atomic::|^std::thread_local'),
    ('a randomized hasher', r'^std::hash::random::|^std::collections::hash::(map|set)::(Hash(Map|Set).*::)?'),
    ('an address', r'^core::ptr::.*::(addr|expose_provenance|to_bits)$|^core::ptr::addr_eq|^core::ptr::hash|^core::ptr::from_ref.*addr'),
    ('the call site', r'^core::panic::location::|^std::backtrace::'),
    ('the compiler\'s names', r'^core::any::(type_name|TypeId)'),
    ('uninitialised memory', r'^core::mem::maybe_uninit::.*assume_init$|^core::mem::uninitialized'),
]
RANDOM = re.compile(r'^(rand|rand_core|rand_chacha|getrandom|fastrand|amplify::.*rand)(::|$)|^<.* as rand(_core)?::')
# what can be done with a hash table without observing its order
UNORDERED = {'new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher', 'insert', 'remove', 'get', 'get_mut', 'contains', 'contains_key',
             'len', 'is_empty', 'entry', 'or_insert', 'or_insert_with', 'or_default', 'or_insert_with_key', 'and_modify', 'eq', 'ne', 'clone',
             'default', 'extend', 'from_iter', 'from', 'clear', 'reserve', 'is_subset', 'is_superset', 'is_disjoint', 'take', 'replace',
             'key', 'get_key_value', 'remove_entry', 'index', 'into_mut', 'drop_in_place', 'shrink_to_fit', 'capacity', 'get_or_insert_with'}
HASHT = re.compile(r'std::collections::hash::(map|set)::(\w+)')


def bodies(f):
    yield f['body']
    for b in f.get('promoted') or []:
        if b:
            yield b.get('body', b) if isinstance(b, dict) and 'blocks' not in b else b


def callee(op):
    """(declared path, resolved path, resolved hash, arguments of the declared path) of a function operand"""
    k = op[1]
    t = k['ty']
    r = k.get('inst')
    return t['d'][1], r['d'][1] if r else t['d'][1], (r or t)['d'][0], t['a']


def fn_operands(b):
    """every function that is called or mentioned in a body, with the line"""
    def walk(x, l):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'const' and isinstance(x[1], dict):
                if isinstance(x[1].get('ty'), dict) and x[1]['ty'].get('k') == 'fndef':
                    yield x, l
                return
            for y in x:
                yield from walk(y, l)
    for bb in b['blocks']:
        for s in bb['s']:
            yield from walk(s, s[-1] if isinstance(s[-1], str) else bb['l'])
        yield from walk(bb['t'], bb['l'])


def casts(b):
    for bb in b['blocks']:
        for s in bb['s']:
            if s[0] == '=' and s[2][0] == 'cast':
                yield s[2], s[-1] if isinstance(s[-1], str) else bb['l']


def mentions_closures(b):
    for bb in b['blocks']:
        for s in bb['s']:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure':
                yield s[2][1][1] if not isinstance(s[2][1][1], list) else s[2][1][1]


@prop('C31', 'Nothing but the placeholder entropy depends on anything but the inputs',
      'Effect analysis: every function the library crates call or mention is classified by where it gets its result from; the call graph '
      'gives the entry points from which a source of randomness is reachable.', floor=300)
def c31(c):
    c.rule('no body calls or names a function reading the clock, the environment, files, threads, hash order, addresses, call sites or type names')
    c.rule('no static is mutable or has interior mutability; no pointer is cast to an integer')
    c.rule('a source of randomness is reachable only from committing a MerkleTree to its source')
    nf = nops = 0
    configs = ('all', 'default') if c.tier == 'quick' else ('all', 'default', 'bare')
    for cfg in configs:
        p = c.prog('release', cfg)
        edges, rnd = {}, set()
        for f in p.fns.values():
            if f['crate'] not in CRATES or 'body' not in f:
                continue
            nf += 1
            name = fn_name(f)
            c.fns.add(f['d'][1])
            es = edges.setdefault(f['d'][0], set())
            c.ob('source', name, cfg)
            for b in bodies(f):
                for op, line in fn_operands(b):
                    nops += 1
                    decl, path, h, targs = callee(op)
                    es.add(h)
                    if RANDOM.search(path) or RANDOM.search(decl):
                        rnd.add(f['d'][0])
                    for what, rx in SOURCES:
                        if what == 'a randomized hasher':
                            continue
                        if re.search(rx, path) or re.search(rx, decl):
                            c.violate('source', name, f'depends on {what}: {strip_generics(path)} at {line}')
                    ts = [tystr(t) for t in targs if isinstance(t, dict)]
                    hs = HASHT.findall(path) + [m for t in ts for m in HASHT.findall(t)]
                    last = strip_generics(decl).split('::')[-1]
                    if hs:
                        bad = [n for _, n in hs if n not in ('HashMap', 'HashSet', 'Entry', 'OccupiedEntry', 'VacantEntry')]
                        source = any(HASHT.search(t) for t in ts[1:]) and last in ('from_iter', 'extend', 'from', 'eq')
                        if bad or source or (last not in UNORDERED and last != 'collect'):
                            c.violate('source', name, f'depends on the order of a hash table: {last} of {(ts or [path])[0][:120]} at {line}')
                    if re.search(r'^std::hash::random::', path):
                        c.violate('source', name, f'depends on a randomized hasher: {strip_generics(path)} at {line}')
                for cs, line in casts(b):
                    if 'Expose' in cs[1] or (cs[3].get('k') in ('ptr', 'ref', 'fnptr') and cs[4].get('k') in ('num', 'prim')):
                        c.violate('source', name, f'depends on an address: cast of {tystr(cs[3])} to {tystr(cs[4])} at {line}')
                for cl in mentions_closures(b):
                    es.add(cl[0] if isinstance(cl, list) else cl)
        for m in p.misc:
            if m['crate'] in CRATES and m['what'] == 'static' and (m['mut'] or not m['freeze']):
                c.violate('static', m['d'][1], f'mutable global state at {m["span"]}')
        # who reaches the randomness
        by_path = {f['d'][1]: h for h, f in p.fns.items()}
        rev = {}
        for a, bs in edges.items():
            for b in bs:
                rev.setdefault(by_path.get(b, b), set()).add(a)
        work, seen = list(rnd), set(rnd)
        while work:
            for a in rev.get(work.pop(), ()):
                if a not in seen:
                    seen.add(a)
                    work.append(a)
        for h in seen:
            f = p.fns[h]
            im = p.impl_of_fn.get(h)
            public = f.get('reach') or (im and im[0].get('trait'))
            if f['kind'].lower().startswith('closure') or '{closure' in f['d'][1]:
                continue
            if im and im[0].get('trait') and im[0]['trait'][1] == CV + 'commit::TryCommitVerify' and \
                    strip_generics(tystr(im[0]['targs'][0])) == CV + 'mpc::tree::MerkleTree':
                continue
            if public:
                c.violate('random', fn_name(f), f'a source of randomness is reachable in configuration {cfg}')
        c.ob('random', cfg, f'{len(rnd)} bodies draw randomness, {len(seen)} reach it')
        if cfg == 'all':
            c.count('random bodies', len(rnd), 1)
    c.count('bodies', nf, 500)
    c.count('function references', nops, 2000)


def normal(x, drop_lines=True):
    """A body without what may differ between two compilations of the same source: hashes of definitions, lines."""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], str) and re.fullmatch(r'F[e0-9]\w+', x[0]) and isinstance(x[1], str):
            return x[1]
        return [normal(y) for y in x]
    if isinstance(x, dict):
        return {k: normal(v) for k, v in x.items() if k not in ('l', 'span')}
    if isinstance(x, str):
        if re.fullmatch(r'[\w/.\-]+\.rs:\d+.*', x):
            return ''
        return re.sub(r'Fe?\d{20,}', 'H', x)
    return x


@prop('C32', 'Optional features only add code and change no result',
      'The bodies of every function are compared across the feature configurations; where the MIR differs, the outcomes of all '
      'paths are compared.', floor=300)
def c32(c):
    c.rule('a function present in two feature configurations has the same outcomes in both, except where it draws a random entropy')
    n = nd = 0
    ps = {k: c.prog('release', k) for k in ('all', 'default', 'bare')}
    progs = {}
    for k, p in ps.items():
        progs[k] = {}
        for f in p.fns.values():
            if f['crate'] in CRATES and 'body' in f:
                progs[k].setdefault(f['d'][1], []).append(f)
    rnd = {f['d'][1] for fs in progs['all'].values() for f in fs
           if any(RANDOM.search(callee(op)[1]) or RANDOM.search(callee(op)[0]) for b in bodies(f) for op, _ in fn_operands(b))}
    for other in ('default', 'bare'):
        for path, fs in progs['all'].items():
            gs = progs[other].get(path)
            if not gs or len(fs) != 1 or len(gs) != 1 or '{closure' in path:
                continue
            f, g = fs[0], gs[0]
            n += 1
            name = fn_name(f)
            c.fns.add(path)
            c.ob('same', name, f'all = {other}')
            if same_body(f, g, progs['all'], progs[other]):
                continue
            nd += 1
            rand = draws(f, rnd, progs['all'])
            r = []
            for p, x in ((ps['all'], f), (ps[other], g)):
                try:
                    an = Analysis(p)
                    r.append(sorted({outcome_text(o) for o in an.analyse(x)
                                     if not rand or o.kind == 'ret' and not any(e.kind == 'nondet' for e in o.events)}))
                except (Unsupported, RecursionError) as e:
                    r.append(None)
            if rand and r[0] is not None:
                c.ob('given', name, f'all = {other}, where no entropy is drawn')
            if r[0] is None or r[0] != r[1]:
                d = ''
                if r[0] and r[1]:
                    a, b = [x for x in r[0] if x not in r[1]], [x for x in r[1] if x not in r[0]]
                    d = f': {a[0][:300] if a else "-"} with all features, {b[0][:300] if b else "-"} in "{other}"'
                c.violate('same', name, f'its result depends on the enabled features{d}')
    c.count('functions compared', n, 300)
    c.notes.append(f'{nd} of {n} pairs differ in their MIR')


def outcome_text(o):
    """an outcome with its loops numbered in the order they come up"""
    ids = {}

    def go(t):
        if isinstance(t, tuple):
            return tuple(map(go, t))
        if not isinstance(t, Term):
            return t
        a = list(t.a)
        k = LOOPID.get(t.op)
        if k is not None and a and isinstance(a[k], int):
            a[k] = 'L%d' % ids.setdefault(a[k], len(ids))
        return mk(t.op, *map(go, a))
    evs = '; '.join(f'{e.kind} {e.key} {go(tuple(e.args))!r}' for e in o.events if e.kind not in ('loop', 'nondet'))
    t = ' & '.join(f'{go(t)!r} {f}' for t, f in o.conds) + f' => {o.kind} {go(o.value)!r} ' + ', '.join(f'{k}={go(v)!r}' for k, v in sorted(o.finals.items(), key=repr)) + ' ' + evs
    return re.sub(r'Fe?\d{20,}', 'H', t)


LOOPID = {'lv': 0, 'el': -1, 'more': -1, 'pos': -1, 'itr': -1, 'taking': -1}


def closures_of(b):
    return [x[1] if isinstance(x, list) else x for x in mentions_closures(b)]


def same_body(f, g, pf, pg):
    if normal(f['body']) != normal(g['body']) or normal(f.get('promoted')) != normal(g.get('promoted')):
        return False
    for cf in closures_of(f['body']):
        a, b = pf.get(cf), pg.get(cf)
        if a and b and len(a) == len(b) == 1 and not same_body(a[0], b[0], pf, pg):
            return False
    return True


def draws(f, rnd, prog, depth=3):
    """does f itself, one of its closures or a workspace function it calls draw randomness"""
    if f['d'][1] in rnd:
        return True
    if not depth:
        return False
    subs = closures_of(f['body']) + [callee(op)[1] for op, _ in fn_operands(f['body'])]
    return any(draws(g, rnd, prog, depth - 1) for s in subs for g in prog.get(s, []))


@prop('C33', 'Reserved bytes always hold their reserved value and decode from nothing else',
      'Every path of every function that makes a ReservedBytes is shown to make it from bytes known to equal the reserved ones.', floor=6)
def c33(c):
    c.rule('on every path that yields a ReservedBytes<LEN, VAL> its content is known to be LEN times VAL; decoding fails otherwise, and only then')
    R = CV + 'ReservedBytes'
    a = c.prog().adt_by_path(R)
    if a is None:
        return c.violate('anchor:ReservedBytes', R, 'type not found')
    for x in a['variants'][0]['fields']:
        if x.get('vis') == 'pub':
            c.violate('field', R, f'the field {x["n"]} is public: any content can be put in')
    n = 0
    ctors = [c.impl_fn('core::default::Default', R, 'default'),
             c.impl_fn('core::convert::From', R, 'from'),
             c.impl_fn('strict_encoding::traits::StrictDecode', R, 'strict_decode'),
             c.impl_fn('serde::de::Deserialize', R, 'deserialize')]
    p = c.prog()
    for f in p.fns.values():    # any other function of the library with such a result
        if 'body' in f and f['crate'] in CRATES and f not in ctors and f['kind'] != 'Ctor' and '{' not in f['d'][1].split('::')[-1]:
            t = tystr(f['body']['locals'][0])
            if R in strip_generics(t) and not t.startswith('&') and f['d'][1].split('::')[-1] not in ('clone',):
                ctors.append(f)
    for f in ctors:
        if f is None:
            continue
        name = fn_name(f)
        for fl in ('release', 'debug'):
            g = c.prog(fl).fns.get(f['d'][0])
            an, outs = c.analyse(g, (), fl)
            good = 0
            for o in outs:
                st = path_state(an, o)
                if st is None:
                    continue
                if o.kind != 'ret':
                    if name.endswith('::from') and not any(is_reserved(t) or is_byte(t) and known(x) == 0 for t, x in o.conds):
                        c.violate('content', name, f'panics on [{describe(o)}]')
                    continue
                v = o.value
                if v.op == 'adt' and v.a[0].endswith('Result'):
                    if v.a[1] == 1:
                        lib = any(t.op == 'discr' and x != ('eq', 0) for t, x in o.conds)
                        wrong = any((is_reserved(t) or is_byte(t)) and known(x) == 0 for t, x in o.conds)
                        c.ob('refused', name, describe(o))
                        if not lib and not wrong:
                            c.violate('refused', name, f'refuses the reserved value on [{describe(o)}]')
                        continue
                    v = v.a[2]
                if 'ReservedBytes' not in (v.a[0] if v.op == 'adt' else 'ReservedBytes'):
                    continue
                good += 1
                b = field(v, 0, 0)
                c.ob('content', name, describe(o))
                n += 1
                ok = b.op == 'repeat' and 'VAL' in repr(b.a[0]) or \
                    any(is_reserved(t) and known(x) == 1 and any(s is b or same(an, st, s, b) for s in t.a) for t, x in o.conds) or \
                    every_byte(an, o, b)
                if not ok:
                    c.violate('content', name, f'gives a value whose content {show(b)[:200]} is not known to be the reserved one on [{describe(o)}]')
            if not good:
                c.violate('content', name, 'never gives a value')
    # the serde form: a unit, and nothing else is read
    w = c.impl_fn('serde::ser::Serialize', R, 'serialize')
    if w is not None:
        c.conform(w, lambda q, x, s: ('ret', call('serde::ser::Serializer::serialize_unit', s)), 'serde form')
    rd = c.impl_fn('serde::de::Deserialize', R, 'deserialize')
    if rd is not None:
        pre = rd['d'][1] + '::'
        for l in p.by_path.values():
            for x in l:
                m = x['d'][1].split('::')[-1]
                if 'body' in x and x['d'][1].lstrip('<').startswith(pre) and m.startswith('visit_'):
                    c.ob('visitor', fn_name(rd), m)
                    if m not in ('visit_unit', 'visit_none'):
                        c.violate('visitor', fn_name(rd), f'reserved bytes are read from other input than a unit: {m}')
    c.count('constructions', n, 6)


def is_reserved(t):
    return t.op in ('eq', 'not') and any(s.op == 'repeat' for s in subterms(t))


def known(x):
    return x[1] if x[0] == 'eq' else None


def is_byte(t):
    """VAL compared with an element"""
    return t.op == 'eq' and any(s.op == 'cparam' for s in t.a) and any(s.op in ('el', 'idx') for s in t.a)


def every_byte(an, o, b):
    """the path leaves by exhaustion a loop over b which goes on only past bytes equal to VAL"""
    for t, x in o.conds:
        if t.op == 'more' and known(x) == 0 and t.a[0] is b and t.a[1] == 0:
            lp = an.loops.get(t.a[2])
            if lp and lp.body and all(any(is_byte(u) and known(y) == 1 and any(s.op == 'el' and s.a[0] is b for s in u.a) for u, y in p.conds)
                                      for p in lp.body):
                return True
    return False


@prop('C43', 'No unsafe code in the libraries or their derives: no input corrupts memory',
      'Every block, function, implementation, static and type of the library crates, and of a crate made of derive expansions, is checked for '
      'the unsafe marker the compiler itself keeps.', floor=300)
def c43(c):
    c.rule('no unsafe block written by hand or by a derive, no unsafe function or implementation, no extern block, no union, no mutable static')
    n = 0
    for config in ('all', 'default', 'fixture') + (('bare',) if c.tier == 'thorough' else ()):
        crates = CRATES + ('fixture',)
        for fl in ('release', 'debug'):
            p = c.prog(fl, config)
            for f in p.fns.values():
                if f['crate'] not in crates:
                    continue
                n += 1
                c.ob('function', fn_name(f), f'{config} {fl}')
                if f.get('unsafe') and not f['expn']:
                    c.violate('unsafe', fn_name(f), f'is an unsafe function, at {f["span"]}')
            for u in p.unsafes:
                if u['crate'] in crates and u['user']:
                    c.violate('unsafe', f'{u["what"]} at {u["span"]}', f'{u["what"]} at {u["span"]}')
            for i in p.impls:
                # (TrivialClone is the marker the compiler's own derive of Copy emits; it cannot be written by hand on a stable compiler)
                if i['crate'] in crates and i.get('unsafe') and not (i['trait'][1] == 'core::clone::TrivialClone' and i['expn']):
                    c.violate('unsafe', i['d'][1], f'unsafe implementation of {i["trait"][1]} for {tystr(i["self"])} at {i["span"]}')
            for m in p.misc:
                if m['crate'] in crates and (m['what'] != 'static' or m['mut']):
                    c.violate('unsafe', f'{m["what"]} at {m["span"]}', f'{m["what"]} at {m["span"]}')
            for a in p.adts.values():
                if a['crate'] in crates and a['local']:
                    c.ob('type', a['d'][1], f'{config} {fl}')
                    if a['kind'] == 'union':
                        c.violate('unsafe', a['d'][1], f'union at {a["span"]}')
    c.count('functions', n, 300)


# what may change a value of the guarded types, by type
CHANGES = {
    CV + 'mpc::tree::MerkleTree': (),
    CV + 'mpc::block::MerkleBlock': ('conceal_except', 'conceal_other', 'merge_reveal', 'merge_reveal_path'),
    CV + 'mpc::block::MerkleProof': (),
    CV + 'mpc::block::MerkleConcealed': (),
    CV + 'mpc::block::InvalidProof': (),
    CV + 'mpc::block::LeafNotKnown': (),
    CV + 'mpc::atoms::ProtocolId': (),
    CV + 'mpc::atoms::Message': (),
    CV + 'mpc::atoms::Commitment': (),
    CV + 'merkle::MerkleHash': (),
    CV + 'merkle::MerkleBuoy': ('push',),
    CV + 'id::StrictHash': (),
    CV + 'id::CommitLayout': (),
    CV + 'id::CommitEngine': (r'commit_to_\w+', 'set_finished', 'as_layout'),
    CV + 'ReservedBytes': (),
    'single_use_seals::NoWitness': ('merge',),
}


@prop('C44', 'Trees, proofs and ids cannot be altered; blocks change only by their own means',
      'The visibility of every field of the guarded types, every reachable function that borrows one of them mutably or gives out a mutable borrow, '
      'and the fields with interior mutability are enumerated from the compiler\'s tables.', floor=60)
def c44(c):
    c.rule('no field of a guarded type is public; no reachable function or trait method borrows one mutably except the listed operations')
    c.rule('no library type has interior mutability or a raw pointer, so that reading never changes a value and it can be shared between threads')
    n = 0
    for config in ('all',) + (('default', 'bare') if c.tier == 'thorough' else ()):
        p = c.prog('release', config)
        for t, ops in CHANGES.items():
            a = p.adt_by_path(t)
            if a is None:
                if config == 'all':
                    c.violate('anchor:' + t, t, 'type not found')
                continue
            n += 1
            for v in a['variants']:
                for x in v['fields']:
                    c.ob('field', t, x['n'])
                    if x['vis'] == 'pub':
                        c.violate('field', t, f'the field {x["n"]} is public: any content can be put in')
        for a in p.adts.values():
            if not a['local'] or a['crate'] not in CRATES or '{' in a['d'][1] or '__' in a['d'][1]:
                continue
            for v in a['variants']:
                for x in v['fields']:
                    c.ob('shared', a['d'][1], x['n'])
                    if x['cell'] or isinstance(x['ty'], dict) and '*' in tystr(x['ty']):
                        c.violate('shared', a['d'][1], f'the field {x["n"]} can change through a shared reference, or is not free to be shared')
        for f in p.fns.values():
            if f['crate'] not in CRATES or 'ins' not in f:
                continue
            im = p.impl_of_fn.get(f['d'][0])
            if not (f.get('reach') or im and im[0].get('trait') or p.trait_item.get(f['d'][0])):
                continue
            name = fn_name(f)
            last = f['d'][1].split('::')[-1]
            for x in f['ins']:
                for g in mut_targets(x):
                    if g in CHANGES:
                        c.ob('change', name, g)
                        # an encoder handed to commit_encode is there to be fed
                        if last == 'commit_encode' and g == CV + 'id::CommitEngine':
                            continue
                        if not any(re.fullmatch(r, last) for r in CHANGES[g]) and not by_listed(c, f, g, config):
                            c.violate('change', name, f'can change a {g}')
            own = {g for x in f['ins'] for g in adts_in(x) if g in CHANGES}
            if own and '&mut' in tystr(f['out']) and last != 'as_layout':
                c.violate('change', name, f'gives out a mutable borrow {tystr(f["out"])} of {", ".join(sorted(own))}')
            c.ob('signature', name, '')
    c.count('guarded types', n, 12)


def by_listed(c, f, g, config):
    """the function leaves what it borrows as it is, or changes it by the listed operations only"""
    if 'body' not in f:
        return False
    ops = tuple(x for x, l in c.prog('release', config).by_path.items() for y in l
                if strip_generics(x).startswith(g + '::') and 'body' in y and any(re.fullmatch(r, x.split('::')[-1]) for r in CHANGES[g]))
    try:
        an, outs = c.analyse(f, opaque=ops, config=config)
    except (Unsupported, RecursionError):
        return False

    def kept(t, p):
        while t.op == 'out':
            if t.a[1].op != 'call' or strip_generics(t.a[1].a[0]) not in [strip_generics(x) for x in ops]:
                return False
            t = t.a[1].a[1 + t.a[0]]
        return t is p
    ps = {p.a[1]: p for p in an.params(f)}
    return all(kept(v, ps[n]) for o in outs for n, v in o.finals.items())


def adts_in(t):
    if not isinstance(t, dict):
        return
    if t.get('k') == 'adt':
        yield strip_generics(t['d'][1])
    for k in ('t', 'a'):
        x = t.get(k)
        for y in x if isinstance(x, list) else [x]:
            yield from adts_in(y)


def mut_targets(t):
    """the types a value of type t gives mutable access to"""
    if not isinstance(t, dict):
        return
    if t.get('k') == 'ref' and t.get('m') and isinstance(t['t'], dict):
        yield from adts_in(t['t'])
    for k in ('t', 'a'):
        x = t.get(k)
        for y in x if isinstance(x, list) else [x]:
            yield from mut_targets(y)
