from rules import prop
from rules.commit import fields, CV, COMMIT_ID, MERKLIZE, CONCEAL
from rules.merkle import Nodes
from spec import *
from ctx import *
from models import EMPTY, length

MP = CV + 'mpc::'
TREE, BLOCK, PROOF, CONC = (MP + x for x in ('tree::MerkleTree', 'block::MerkleBlock', 'block::MerkleProof', 'block::MerkleConcealed'))
NODE, LEAF, SRC = MP + 'block::TreeNode', MP + 'atoms::Leaf', MP + 'atoms::MultiSource'
PID, MSG = MP + 'atoms::ProtocolId', MP + 'atoms::Message'
IPROOF, NOLEAF, MERR, TERR = (MP + x for x in ('block::InvalidProof', 'block::LeafNotKnown', 'block::MergeError', 'tree::commit::Error'))
HASHT = CV + 'merkle::MerkleHash'
TWO = INT(2)


# ------------------------------------------------------------------ names and shapes
def last(ty):
    return strip_generics(tystr(ty)).split('::')[-1]


def variant_by_fields(c, path, want):
    """{role: (variant index, {field role: index})} with variants told apart by the types of their fields, so
    that private names are free to change.  want: {role: {field role: type name}}"""
    a = c.prog().adt_by_path(path)
    if a is None:
        c.violate('anchor:' + path, path, 'type not found')
        return None
    r = {}
    for role, fs in want.items():
        hits = []
        for i, v in enumerate(a['variants']):
            m = {}
            for k, t in fs.items():
                j = [n for n, f in enumerate(v['fields']) if last(f['ty']) == t]
                if len(j) != 1:
                    named = [n for n, f in enumerate(v['fields']) if f['n'] == k and last(f['ty']) == t]
                    j = named
                if len(j) == 1:
                    m[k] = j[0]
            if len(m) == len(fs) == len(v['fields']):
                hits.append((i, m))
        if len(hits) != 1:
            c.violate('anchor:' + path, path, f'no variant for {role}')
            return None
        r[role] = hits[0]
    return r


def make(_ty, _var, _ix, **vals):
    fs = [None] * len(_ix)
    for k, i in _ix.items():
        fs[i] = vals[k]
    return adt(_ty, _var, *fs)


class Mpc:
    def __init__(self, c):
        T = lambda *n: (n[0], lambda t: strip_generics(t).split('::')[-1] in n[1:])
        self.tree = fields(c, TREE, {'method': T('method', 'Method'), 'depth': T('depth', 'u5'), 'entropy': T('entropy', 'u64'),
                                     'cofactor': T('cofactor', 'u16'), 'messages': ('messages', None), 'map': ('map', None)})
        self.block = fields(c, BLOCK, {'method': T('method', 'Method'), 'depth': T('depth', 'u5'), 'cofactor': T('cofactor', 'u16'),
                                       'section': ('cross_section', lambda t: 'TreeNode' in t), 'entropy': ('entropy', lambda t: 'Option' in t)})
        self.proof = fields(c, PROOF, {'method': T('method', 'Method'), 'pos': T('pos', 'u32'), 'cofactor': T('cofactor', 'u16'),
                                       'path': ('path', lambda t: 'MerkleHash' in t)})
        self.conc = fields(c, CONC, {'depth': T('depth', 'u5'), 'cofactor': T('cofactor', 'u16'), 'root': ('merkle_root', lambda t: 'MerkleHash' in t)})
        self.src = fields(c, SRC, {'method': ('method', None), 'depth': ('min_depth', None), 'messages': ('messages', None), 'entropy': ('static_entropy', None)})
        self.nodev = variant_by_fields(c, NODE, {'hidden': {'depth': 'u5', 'hash': 'MerkleHash'},
                                                 'leaf': {'protocol_id': 'ProtocolId', 'message': 'Message'}})
        self.leafv = variant_by_fields(c, LEAF, {'inhabited': {'protocol': 'ProtocolId', 'message': 'Message'},
                                                 'entropy': {'entropy': 'u64', 'pos': 'u32'}})
        self.ok = all((self.tree, self.block, self.proof, self.conc, self.src, self.nodev, self.leafv))

    # objects
    def g(self, kind, obj, role):
        return field(obj, 0, getattr(self, kind)[role])

    def new(self, kind, **vals):
        return make({'tree': TREE, 'block': BLOCK, 'proof': PROOF, 'conc': CONC}[kind], 0, getattr(self, kind), **vals)

    def hidden(self, depth, hash):
        v, ix = self.nodev['hidden']
        return make(NODE, v, ix, depth=depth, hash=hash)

    def open(self, k, m):
        v, ix = self.nodev['leaf']
        return make(NODE, v, ix, protocol_id=k, message=m)

    def inhabited(self, k, m):
        v, ix = self.leafv['inhabited']
        return make(LEAF, v, ix, protocol=k, message=m)

    def noise(self, e, pos):
        v, ix = self.leafv['entropy']
        return make(LEAF, v, ix, entropy=e, pos=pos)

    def nf(self, kind, node, role):
        """field of a node of the given kind"""
        v, ix = self.nodev[kind]
        return field(node, v, ix[role])

    def is_hidden(self, q, node):
        return q(eqi(q.an.discr(node), self.nodev['hidden'][0]))


def err_field(c, path, variant, names):
    a = c.prog().adt_by_path(path)
    if a is None:
        c.violate('anchor:' + path, path, 'type not found')
        return None
    for i, v in enumerate(a['variants']):
        if v['n'] == variant or len(a['variants']) == 1:
            fs = [f['n'] for f in v['fields']]
            if set(names) <= set(fs) and len(fs) == len(names):
                return i, {n: fs.index(n) for n in names}
    c.violate('anchor:' + path, path, f'no variant {variant} with {names}')
    return None


# ------------------------------------------------------------------ arithmetic
def lin(t):
    """linear form: ({term: coefficient}, constant)"""
    if t.op == 'int':
        return {}, t.a[0]
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        s = 1 if t.a[0] == 'Add' else -1
        (x, k), (y, l) = lin(t.a[1]), lin(t.a[2])
        r = dict(x)
        for u, v in y.items():
            r[u] = r.get(u, 0) + s * v
            if not r[u]:
                del r[u]
        return powers(r), k + s * l
    if t.op == 'bin' and t.a[0] == 'Mul' and t.a[2].op == 'int':
        x, k = lin(t.a[1])
        return powers({u: v * t.a[2].a[0] for u, v in x.items()}), k * t.a[2].a[0]
    p = pow2(t)
    if p is not None and t.op != 'pow':
        return {p: 1}, 0
    return {(p if p is not None else t): 1}, 0


def powers(x):
    """2 * 2^e is 2^(e+1)"""
    while True:
        u = next((u for u, v in x.items() if isinstance(u, tuple) and u[0] == 'pow2' and v % 2 == 0), None)
        if u is None:
            return x
        x = dict(x)
        v = x.pop(u) // 2
        w = ('pow2', u[1], u[2] + 1)
        x[w] = x.get(w, 0) + v
        if not x[w]:
            del x[w]


def pow2(t):
    """2^e as ('pow2', frozen linear form of e)"""
    if t.op == 'pow' and is_int(t.a[0], 2):
        x, k = lin(t.a[1])
        return ('pow2', frozenset(x.items()), k)
    if t.op == 'bin' and t.a[0] == 'Mul' and is_int(t.a[2], 2):
        p = pow2(t.a[1])
        if p:
            return ('pow2', p[1], p[2] + 1)
    if t.op == 'bin' and t.a[0] == 'Shl':
        p = pow2(t.a[1])
        x, k = lin(t.a[2])
        if p:
            d = dict(p[1])
            for u, v in x.items():
                d[u] = d.get(u, 0) + v
            return ('pow2', frozenset((u, v) for u, v in d.items() if v), p[2] + k)
    return None


def lineq(a, b):
    return lin(a) == lin(b)


def strip1(t):
    """inside conversions between number types that keep every value below 2^32"""
    while True:
        if t.op == 'cast' and UMAX.get(t.a[1], 0) >= 32:
            t = t.a[2]
        elif t.op == 'call' and len(t.a) == 2 and isinstance(t.a[1], Term) and (
                t.a[0].startswith(('into<', 'from<')) or t.a[0].split('::')[-1].split('<')[0] in (
                    'from', 'into', 'low_u64', 'low_u32', 'as_u64', 'as_u32', 'low_u128', 'try_into', 'unwrap', 'to_u8', 'into_u8')):
            t = t.a[1]
        else:
            return t


def bare(t):
    """inside newtypes, references to their content and conversions to bytes"""
    while True:
        u = strip1(t)
        if u.op == 'call' and len(u.a) == 2 and isinstance(u.a[1], Term) and u.a[0].split('::')[-1].split('<')[0] in (
                'into_inner', 'to_inner', 'as_inner', 'to_byte_array', 'as_ref', 'borrow', 'deref', 'into_array', 'as_slice', 'clone', 'to_vec', 'into_bytes'):
            t = u.a[1]
        elif u.op == 'field' and u.a[1:] == (0, 0):
            t = u.a[0]
        elif u is t:
            return t
        else:
            t = u


def WIDTH(depth):
    want = pow2(power(TWO, depth))
    return pred(lambda an, st, a: a is power(TWO, depth) or pow2(strip1(a)) == want)


def factored(depth, cofactor):
    """max(2^depth - cofactor, 1), in any of the forms the path makes equal to it"""
    w = power(TWO, depth)

    def f(an, st, a):
        a = strip1(a)
        if a.op == 'max':
            x, y = strip1(a.a[0]), strip1(a.a[1])
            if is_int(x, 1):
                x, y = y, x
            if not is_int(y, 1):
                return False
            return x.op == 'ssub' and x.a[0] is w and strip1(x.a[1]) is cofactor or x is w and cofactor is INT(0)
        ss = mk('ssub', w, cofactor)
        z = an.decide(st, eqi(ss, 0))
        if z is not None:
            return a in (ss, binop('Sub', w, cofactor)) if z == 0 else is_int(a, 1)
        less = an.decide(st, lt(cofactor, w))
        if less == 1:
            return a is binop('Sub', w, cofactor) or a is mk('ssub', w, cofactor)
        if less == 0:
            return is_int(a, 1)
        more = an.decide(st, lt(w, cofactor))
        if more == 1:
            return is_int(a, 1)
        if more == 0:
            d = binop('Sub', w, cofactor)
            z = an.decide(st, eqi(d, 0))
            return a is d if z == 0 else is_int(a, 1) if z == 1 else False
        return False
    return f


def POS(pid, depth, cofactor):
    """the remainder of the little-endian id by the factored width"""
    fw = factored(depth, cofactor)

    def f(an, st, a):
        a = strip1(a)
        if a.op != 'bin' or a.a[0] != 'Rem' or not fw(an, st, a.a[2]):
            return False
        x = a.a[1]
        return x.op == 'call' and x.a[0].split('::')[-1] == 'from_le_bytes' and len(x.a) == 2 and 'u256' in x.a[0] \
            and bare(x.a[1]) is bare(pid)
    return pred(f)


# ------------------------------------------------------------------ positions
def debug_ok(an, o):
    return True


def confined(an, o):
    """only the bound of a confined collection can fail"""
    return bool(o.conds) and o.conds[-1][0].op == 'fits' and 'confined' in str(o.conds[-1][0].a[1]) or any(
        t.op == 'fits' and 'confined' in str(t.a[1]) and f == ('eq', 0) for t, f in o.conds)


HOWM = ('All MIR paths of the operation (helpers, closures and iterator adaptors inlined) are compared with the required value as symbolic '
        'terms; positions, depths, cofactors and messages are free symbols, loops are summarized, so the result holds for trees of every size.')


@prop('C19', 'The leaf position of a protocol is its id modulo the factored width', HOWM, floor=9)
def c19(c):
    c.rule('protocol_id_pos = LE(id) mod max(2^depth - cofactor, 1) in trees and blocks; width_limit = 2^depth; factored_width = max(2^depth - cofactor, 1)')
    c.rule('the depth of a proof is the length of its path; every path its type can hold has a depth')
    m = Mpc(c)
    if not m.ok:
        return
    for kind, ty in (('tree', TREE), ('block', BLOCK)):
        D, F = (lambda s: m.g(kind, s, 'depth')), (lambda s: m.g(kind, s, 'cofactor'))
        c.conform(c.find(ty + '::protocol_id_pos'), lambda q, s, p: ('ret', POS(p, D(s), F(s))), f'{kind} position', flavours=('release',))
        c.conform(c.find(ty + '::protocol_id_pos'), lambda q, s, p: ('ret', POS(p, D(s), F(s))), f'{kind} position', panics='any', flavours=('debug',))
        c.conform(c.find(ty + '::width_limit'), lambda q, s: ('ret', WIDTH(D(s))), f'{kind} width')
        c.conform(c.find(ty + '::factored_width'), lambda q, s: ('ret', pred(factored(D(s), F(s)))), f'{kind} factored width')
    D = lambda s: mk('len', m.g('proof', s, 'path'))

    def deep(an, o):
        return bool(o.conds) and o.conds[-1][0].op == 'fits'

    def DEPTH(s):
        return pred(lambda an, st, a: a is D(s) or a.op == 'cast' and a.a[2] is D(s))

    def norm(f):
        # the length of a confined path fits every integer type
        return pred(lambda an, st, a: f(an, st, subst(a, lambda x: D(ps[0]) if x.op == 'cast' and x.a[2] is D(ps[0]) else None)))
    f = c.find(PROOF + '::depth')
    if f:
        an, outs = c.analyse(f)
        ln = D(an.params(f)[0])
        for o in outs:
            if o.kind == 'panic':
                t, v = o.conds[-1] if o.conds else (None, None)
                full = len(o.conds) == 1 and (t.op == 'fits' and v == ('eq', 0) and t.a[1] == 5 and ln in (t.a[0], t.a[0].a[-1])
                                              or t is lt(ln, INT(32)) and v == ('eq', 0) or t is eqi(ln, 32) and v == ('eq', 1))
                c.violate('proof depth', fn_name(f), 'panics on a path length the type of the proof allows: '
                          + ('32 elements' if full else f'[{describe(o)}]'))
        c.conform(f, lambda q, s: ('ret', DEPTH(s)), 'proof depth', panics=deep)
    for n, w in (('width_limit', lambda s: WIDTH(D(s)).a[0]), ('factored_width', lambda s: factored(D(s), m.g('proof', s, 'cofactor')))):
        g = c.find(f'{PROOF}::{n}')
        if g:
            an, _ = c.analyse(g)
            ps = an.params(g)
            c.conform(g, lambda q, s: ('ret', norm(w(s))), f'proof {n}', panics=deep)


# ------------------------------------------------------------------ leaves
def comp(src, paths, lv=-1):
    return mk('comp', src, tuple(mk('cpath', tuple(mk('cond', t, k, v) for t, k, v in cs), val) for cs, val in paths), lv)


def leaf_seq(m, tree, wrap_in, wrap_no):
    """one leaf per position 0..2^depth: the message mapped there, otherwise the placeholder"""
    src = mk('range', INT(0), power(TWO, m.g('tree', tree, 'depth')))
    el = mk('el', src, 0, -1)
    e = mk('mget', m.g('tree', tree, 'map'), el)
    kv = field(e, 1, 0)
    d = mk('discr', e)
    return comp(src, [([(d, 'eq', 0)], wrap_no(m.noise(m.g('tree', tree, 'entropy'), el))),
                      ([(d, 'eq', 1)], wrap_in(field(kv, 0, 0), field(kv, 0, 1)))])


@prop('C22', 'A tree and its block have the same leaves, messages and placeholders in place', HOWM, floor=6)
def c22(c):
    c.rule('for every position below 2^depth, in order: the inhabited leaf of the message mapped there, otherwise Leaf::entropy(entropy, position)')
    c.rule('tree.root() merklizes those leaves; the block of a tree holds them (placeholders as their ids at tree depth) with the tree\'s method, depth, cofactor and entropy')
    m = Mpc(c)
    if not m.ok:
        return
    ids = lambda x: x
    op = (COMMIT_ID, MERKLIZE)
    root = lambda q, s: ('ret', call(MERKLIZE, leaf_seq(m, s, m.inhabited, ids)))

    def from_tree(q, t):
        g = lambda r: m.g('tree', t, r)
        sec = leaf_seq(m, t, m.open, lambda n: m.hidden(g('depth'), call(COMMIT_ID, n)))
        return 'ret', m.new('block', method=g('method'), depth=g('depth'), cofactor=g('cofactor'), section=sec, entropy=some(g('entropy')))
    f = c.find(TREE + '::root')
    c.conform(f, root, 'root of a tree', opaque=op, panics=confined, flavours=('release',))
    c.conform(f, root, 'root of a tree', opaque=op, panics='any', flavours=('debug',))
    n = 0
    for i in c.prog().impls:
        if i.get('trait') and strip_generics(i['trait'][1]) == 'core::convert::From' and strip_generics(tystr(i['targs'][0])) == BLOCK.split('::')[-1] or \
                i.get('trait') and strip_generics(i['trait'][1]) == 'core::convert::From' and strip_generics(tystr(i['targs'][0])) == BLOCK:
            if 'MerkleTree' in tystr(i['targs'][1]):
                g = c.prog().fns.get(i['items'][0]['d'][0])
                n += 1
                c.conform(g, from_tree, 'block of a tree', opaque=op, panics=confined, key='block of a tree')
    c.count('conversions', n, 2)


# ------------------------------------------------------------------ loops
def lvof(an, t):
    """(loop, initial value, [(body path, value after it)]) of a loop-carried variable"""
    if t.op != 'lv' or t.a[0] not in an.loops:
        return None
    lp = an.loops[t.a[0]]
    init = next((o for n, (o, g) in lp.init.items() if g is t), None)
    if init is None:
        return None
    return lp, init, [(b, next((x for n, (g, x) in b.updates.items() if g is t), t)) for b in lp.body]


def chain_lv(an, t):
    """the variable of the innermost loop a value was last changed in: follows inner loops to where they started"""
    return lvof(an, t)


def steps_by_one(an, st, t, start):
    """t runs over start, start+1, ...: a counter of a loop, perhaps an optional one, or an element of a range"""
    if t.op == 'el' and t.a[0].op == 'range':
        return t.a[1] == 0 and same(an, st, start, t.a[0].a[0])
    if optional(t):
        i = lvof(an, t.a[0])
        return bool(i) and same(an, st, some(start), i[1]) and bool(i[2]) and all(
            x is NONE and any(c[0] is mk('overflow', 'Add', t, INT(1)) and c[1] == ('eq', 1) for c in b.conds) or same(an, st, some(binop('Add', t, INT(1))), x)
            for b, x in i[2])
    i = lvof(an, t)
    return bool(i) and same(an, st, start, i[1]) and all(x is binop('Add', t, INT(1)) for _, x in i[2]) and bool(i[2])


def optional(t):
    """is it the content of an optional variable of a loop?"""
    return t.op == 'field' and t.a[0].op == 'lv' and t is field(t.a[0], 1, 0)


def loop_of(an, t):
    """the loop a counter belongs to"""
    t = t.a[0] if optional(t) else t
    return an.loops.get(t.a[0] if t.op == 'lv' else t.a[2] if t.op == 'el' else None)


def nondet(t):
    """a freshly generated random number, not processed any further"""
    t0 = t
    return t0.op == 'call' and contains(t0, lambda x: x.op == 'nonce') and not contains(t0, lambda x: x.op == 'bin')


def map_of_messages(an, o, st, m, mp, msgs, D, C):
    """the map holds every message at its own position, and no two messages share one"""
    def right(key, val, el, st=st):
        return same(an, st, POS(field(el, 0, 0), D, C), key) and (val is el or same(an, st, tup(field(el, 0, 0), field(el, 0, 1)), val))
    if mp.op == 'mapof' and mp.a[0].op == 'comp' and mp.a[0].a[0] is msgs:
        el = mk('el', msgs, 0, mp.a[0].a[2])
        ps = comp_paths(mp.a[0])
        # that a power of two is not zero may be asserted
        if len(ps) != 1 or any(t.op != 'pow' for t, _ in ps[0][0]) or ps[0][1].op != 'tuple' or not right(ps[0][1].a[0], ps[0][1].a[1], el):
            return 'messages are not mapped from their positions'
        want = eqraw(mk('len', mp), mk('len', msgs))
        if an.decide(st, want) != 1 and not any(t is want and f == ('eq', 1) for t, f in o.conds):
            return 'the map may be smaller than the set of messages'
        return None
    i = lvof(an, mp)
    if not i:
        return f'the map is {show(mp)[:200]}'
    lp, init, body = i
    if not (init.op == 'emptymap' or init.op == 'mapof' and not init.a[0].a):
        return f'the map starts as {show(init)[:100]}'
    if msgs not in loop_sources(lp):
        return 'the map is not filled from the messages'
    if not any(t.op == 'more' and t.a[0] is msgs and t.a[2] == lp.id and f == ('eq', 0) for t, f in o.conds):
        return 'the commitment is returned before all the messages have been placed'
    el = mk('el', msgs, 0, lp.id)
    for b, new in body:
        s = st.copy()
        if not all(learn(an, s, x) for x in b.conds):
            continue
        if new.op != 'minsert' or new.a[0] is not mp or not right(new.a[1], new.a[2], el, s):
            return f'a message is placed as {show(new)[:300]}'
        d = an.discr(mk('mget', mp, new.a[1]))
        if not any(t is d and (f == ('eq', 0) or f[0] == 'ne' and 1 in f[1]) for t, f in b.conds):
            return 'a message may replace another one at the same position'
    if not body:
        return 'no message is placed'
    return None


@prop('C20', 'A multi-message commitment places every message at its own position', HOWM, floor=8,
      assume=['the random generator of the rand crate is used as is for the entropy of a tree'])
def c20(c):
    c.rule('no messages and zero minimal depth -> Empty; more than 2^31 messages -> TooManyMessages; depth exhausted -> CantFitInMaxSlots')
    c.rule('otherwise: method, messages as in the source; depth from min_depth upwards by one; cofactor from 0 upwards; every message inserted at '
           'LE(id) mod max(2^depth - cofactor, 1) with that very depth and cofactor, collisions rejected; entropy is the static one or freshly random')
    m = Mpc(c)
    if not m.ok:
        return
    f = c.impl_fn(CV + 'commit::TryCommitVerify', TREE, 'try_commit')
    ev = {}
    for v in ('Empty', 'TooManyMessages', 'CantFitInMaxSlots'):
        a = c.prog().adt_by_path(TERR)
        ev[v] = next((i for i, x in enumerate(a['variants']) if x['n'] == v), None) if a else None
        if ev[v] is None:
            return c.violate('anchor:' + TERR, TERR, f'no variant {v}')
    if f is None:
        return
    ncommit = [0]

    def spec(q, src):
        g = lambda r: m.g('src', src, r)
        an, o, n = q.an, q.out, mk('len', g('messages'))
        if q(eqi(g('depth'), 0)) and q(eqi(n, 0)):
            return 'ret', err(adt(TERR, ev['Empty']))
        if q(lt(INT(2 ** 31), n)):
            return 'ret', err(adt(TERR, ev['TooManyMessages'], n))
        v = o.value
        if o.kind == 'ret' and v.op == 'adt' and v.a[:2] == (RESULT, 1):
            if not any(t.op == 'overflow' and t.a[0] == 'Add' and steps_by_one(an, q.st, t.a[1], g('depth')) and fct == ('eq', 1)
                       or t.op == 'more' and t.a[0].op == 'range' and same(an, q.st, g('depth'), t.a[0].a[0]) and is_int(t.a[0].a[1], 32) and fct == ('eq', 0)
                       or t.op == 'discr' and t.a[0].op == 'lv' and fct == ('eq', 0) and steps_by_one(an, q.st, field(t.a[0], 1, 0), g('depth'))
                       for t, fct in o.conds):
                raise Mismatch('it gives up before every depth has been tried')
            return 'ret', err(adt(TERR, ev['CantFitInMaxSlots'], n))
        if o.kind != 'ret':
            return 'ret', ANYT
        if v.op != 'adt' or v.a[:2] != (RESULT, 0):
            raise Mismatch(f'returns {show(v)[:200]}')
        t = v.a[2]
        ncommit[0] += 1
        D, C, E, MAP = (m.g('tree', t, r) for r in ('depth', 'cofactor', 'entropy', 'map'))
        if not steps_by_one(an, q.st, D, g('depth')):
            raise Mismatch(f'the depth is {show(D)[:100]}: it must go from the minimal depth upwards one by one')
        if not steps_by_one(an, q.st, C, INT(0)):
            raise Mismatch(f'the cofactor is {show(C)[:100]}: it must go from 0 upwards one by one')
        r = map_of_messages(an, o, q.st, m, MAP, g('messages'), D, C)
        if r:
            raise Mismatch(r)
        ent = field(g('entropy'), 1, 0) if q.is_some(g('entropy')) else pred(lambda an, st, a: nondet(a))
        return 'ret', ok(m.new('tree', method=g('method'), depth=D, entropy=ent, cofactor=C, messages=g('messages'), map=MAP))
    c.conform(f, spec, 'commit', panics=confined, flavours=('release',))
    c.conform(f, spec, 'commit', panics='any', flavours=('debug',))
    c.count('committing_paths', ncommit[0], 2)
    dflt = lambda e: make(SRC, 0, m.src, method=ANYT, depth=INT(3), messages=pred(lambda an, st, a: a.op == 'emptymap'), entropy=e)
    c.conform(c.impl_fn('core::default::Default', SRC, 'default'), lambda q: ('ret', dflt(NONE)), 'default source')
    c.conform(c.find(SRC + '::with_static_entropy'), lambda q, e: ('ret', dflt(some(e))), 'source with static entropy')


def is_collision(an, st, t, fct, D, C):
    """the fact that a message found the position it has at this depth and cofactor taken"""
    if fct == ('eq', 1) and t.op == 'discr' and t.a[0].op == 'mget':
        k = t.a[0].a[1]
        els = [x for x in subterms(k) if x.op == 'el']
        return any(same(an, st, POS(field(e, 0, 0), D, C), k) for e in els)
    if t.op == 'eq' and fct == ('eq', 0):
        # the map of all the messages got smaller than the messages
        return any(x.op == 'len' and x.a[0].op == 'mapof' for x in t.a)
    return False


@prop('C30', 'A tree takes the first depth and cofactor at which no messages collide',
      'The search loops of the commitment are found from the depth and cofactor of the returned tree. Every path which leads from one attempt '
      'to the next is required to hold a fact that rules the attempt out; together with the counters going up by one that makes the result the first fit.', floor=6)
def c30(c):
    c.rule('the depth goes from the minimal one upwards by one; a depth is left only when it has fewer positions than there are messages, or when all its cofactors have been tried')
    c.rule('at every depth the cofactors go from 0 to the smaller of 500 and the width of the previous depth (1 for the first); one is left only when two messages collide')
    m = Mpc(c)
    f = c.impl_fn(CV + 'commit::TryCommitVerify', TREE, 'try_commit')
    if not m.ok or f is None:
        return
    an, outs = c.analyse(f)
    src = an.params(f)[0]
    g = lambda r: m.g('src', src, r)
    n = mk('len', g('messages'))
    name = fn_name(f)
    seen = set()

    def bad(msg, rule='search'):
        c.violate(rule, name, msg)

    def width_too_small(st, D):
        return any(an.decide(st, lt(w, n)) == 1 for w in [power(TWO, D)])

    def bound_ok(hi, D, lpD):
        # exclusive end of the cofactors; at most 501, so no conversion to 16 bits or more changes it
        hi = wide(hi)
        if hi.op != 'bin' or hi.a[0] != 'Add' or not is_int(hi.a[2], 1):
            return False
        x = wide(hi.a[1])
        if x.op == 'min' and any(is_int(y, 500) for y in x.a):
            prev = strip1(x.a[0] if is_int(x.a[1], 500) else x.a[1])
            i = lvof(an, prev)
            return bool(i) and i[0] is lpD and is_int(i[1], 1) and bool(i[2]) and all(same(an, None, WIDTH(D), v) for _, v in i[2])
        return False

    def end_of(t, fct, D, C, lpC):
        """the exclusive end of the cofactors, when the fact says that they are exhausted"""
        if t.op == 'more' and t.a[0].op == 'range' and t.a[0] is C.a[0] and t.a[2] in an.loops and fct == ('eq', 0):
            # the same walk, entered in a different state
            lp = an.loops[t.a[2]]
            C2 = mk('el', t.a[0], 0, lp.id)
            return t.a[0].a[1] if all(given_up(b, D, C2) for b in lp.body) else None
        if C.op == 'lv' and t.op == 'lt' and t.a[1] is C and fct == ('eq', 1):
            return binop('Add', t.a[0], INT(1))
        if C.op == 'lv' and t.op == 'lt' and t.a[0] is C and fct == ('eq', 0):
            return t.a[1]
        return None

    def wide(t):
        while t.op == 'cast' and UMAX.get(t.a[1], 0) >= 16:
            t = t.a[2]
        return t

    def body_state(lp, b):
        st = State()
        for cnd in b.conds:
            learn(an, st, cnd)
        return st

    def given_up(b, D, C):
        s = body_state(None, b)
        return any(is_collision(an, s, x, fct, D, C) for x, fct in b.conds)
    for o in outs:
        v = o.value
        if o.kind != 'ret' or v.op != 'adt' or v.a[:2] != (RESULT, 0):
            continue
        st = path_state(an, o)
        if st is None:
            continue
        t = v.a[2]
        D, C = m.g('tree', t, 'depth'), m.g('tree', t, 'cofactor')
        c.ob('search', name, f'depth {show(D)[:60]} cofactor {show(C)[:80]}')
        if not steps_by_one(an, st, D, g('depth')) and not same(an, st, g('depth'), D):
            bad(f'the depth is {show(D)[:100]}')
            continue
        # the attempts before this one at the same depth
        if C.op == 'int':
            for k in range(C.a[0]):
                if not any(is_collision(an, st, x, fct, D, INT(k)) for x, fct in o.conds):
                    bad(f'on the path to cofactor {C.a[0]} nothing rules out cofactor {k}: {describe(o)[:300]}')
        elif not steps_by_one(an, st, C, INT(0)):
            bad(f'the cofactor is {show(C)[:100]}')
            continue
        lpD, lpC = loop_of(an, D), loop_of(an, C)
        if C.op in ('el', 'lv') and lpC is not None and lpD is not None and (lpC.id, lpD.id) not in seen:
            seen.add((lpC.id, lpD.id))
            for b in lpC.body:
                c.ob('next cofactor', name, str(lpC.id))
                if not given_up(b, D, C):
                    bad('a cofactor is given up although no messages collide: ' + ' & '.join(showcond(x) for x in b.conds)[:400])
            for b in lpD.body:
                c.ob('next depth', name, str(lpD.id))
                s = body_state(lpD, b)
                if width_too_small(s, D):
                    continue
                ends = [e for e in (end_of(x, fct, D, C, lpC) for x, fct in b.conds) if e is not None]
                if not ends:
                    bad('a depth is given up although not all its cofactors have been tried: ' + ' & '.join(showcond(x) for x in b.conds)[:400])
                elif not any(bound_ok(e, D, lpD) for e in ends):
                    bad(f'the cofactors end before {show(ends[0])[:200]}')
    if not seen:
        bad('the search is not a loop over depths containing a loop over cofactors')


TRYC = CV + 'commit::TryCommitVerify::try_commit'


def call_in_path(q, key, *want):
    """the call of key on the analysed path whose arguments are the wanted ones"""
    o = q.out
    ts = [t for c, _ in o.conds for t in subterms(c)] + (list(subterms(o.value)) if isinstance(o.value, Term) else [])
    for t in ts:
        if t.op == 'call' and t.a[0] == key and len(t.a) == len(want) + 1 and all(same(q.an, q.st, w, x) for w, x in zip(want, t.a[1:])):
            return t
    raise Mismatch(f'{key.split("::")[-1]} is not applied to {", ".join(show(w)[:200] for w in want)}')


@prop('C21', 'A tree verifies exactly against the sources that commit to that very tree', HOWM, floor=4)
def c21(c):
    c.rule('verify(source) = Ok iff try_commit(source with its static entropy, or the entropy of the tree when it has none) is Ok(t) with t == tree; '
           'InvalidMessage when it fails, InvalidCommitment when t differs')
    m = Mpc(c)
    VE = CV + 'commit::VerifyError'
    a = c.prog().adt_by_path(VE)
    if not m.ok or a is None:
        return c.violate('anchor:' + VE, VE, 'type not found') if a is None else None
    vi = {v['n']: i for i, v in enumerate(a['variants'])}
    f = c.impl_fn(CV + 'commit::TryCommitVerify', TREE, 'verify')

    def spec(q, self, src):
        e = m.g('src', src, 'entropy')
        e2 = field(e, 1, 0) if q.is_some(e) else m.g('tree', self, 'entropy')
        s2 = make(SRC, 0, m.src, **{r: (some(e2) if r == 'entropy' else m.g('src', src, r)) for r in m.src})
        r = call_in_path(q, TRYC, s2)
        if not q.is_ok(r):
            return 'ret', err(adt(VE, vi['InvalidMessage']))
        if q.eq(self, field(r, 0, 0)):
            return 'ret', ok(UNIT)
        return 'ret', err(adt(VE, vi['InvalidCommitment']))
    if f:
        c.conform(f, spec, 'tree verification', opaque=(TRYC,))
        # equality of trees is equality of all their parts
    eq = c.impl_fn('core::cmp::PartialEq', TREE, 'eq')
    if eq:
        def eqspec(q, a, b):
            for r in ('method', 'depth', 'entropy', 'cofactor', 'messages', 'map'):
                if not q.eq(m.g('tree', a, r), m.g('tree', b, r)):
                    return 'ret', FALSE
            return 'ret', TRUE
        c.conform(eq, eqspec, 'tree equality')


# ------------------------------------------------------------------ proofs
def find_cond(q, pr):
    for t, _ in q.out.conds:
        if pr(t):
            return t
    return None


def with_section(m, an, o, st, proof, pid, msg, path, sec):
    """left siblings in order, the leaf, right siblings in reverse; chirality by the bits of the position from the top"""
    ln = mk('len', path)
    parts = list(sec.a) if sec.op == 'append' else [sec]
    isleaf = lambda t: t.op == 'array' and len(t.a) == 1 and same(an, st, m.open(pid, msg), t.a[0])
    k = [i for i, t in enumerate(parts) if isleaf(t)]
    if len(k) != 1:
        return f'the section is {show(sec)[:300]}: it must hold the leaf once'
    left, right = parts[:k[0]], parts[k[0] + 1:]
    if len(left) != 1 or len(right) != 1 or right[0].op != 'rev':
        return f'the leaf must follow the left siblings and precede the reversed right ones: {show(sec)[:300]}'
    lps = [an.loops[e.key] for e in o.events if e.kind == 'loop' and path in loop_sources(an.loops[e.key])]
    if len(lps) != 1:
        return 'the path is not walked once'
    lp = lps[0]

    def sibling(node, lid):
        if node.op != 'adt' or node.a[:2] != (NODE, m.nodev['hidden'][0]):
            return False
        d, h = m.nf('hidden', node, 'depth'), m.nf('hidden', node, 'hash')
        el = mk('el', path, 0, lid)
        if h is not el:
            return False
        d = subst(d, lambda x: x.a[2] if x.op == 'cast' else None)
        ix = mk('el', mk('range', INT(0), ln), 0, lid)
        if d is binop('Add', ix, INT(1)):
            return True
        x, k = lin(d)
        if len(x) == 1 and list(x.values()) == [1]:
            v = next(iter(x))
            if v is ix:
                return k == 1
            i = lvof(an, v)
            return bool(i) and is_int(i[1]) and i[1].a[0] + k == 1 and all(y is binop('Add', v, INT(1)) for _, y in i[2])
        return False
    # the direction test of each body path
    width = power(TWO, ln)
    iswidth = lambda t: same_width(t, ln)
    dirs = []
    for b in lp.body:
        hit = None
        for t, fct in b.conds:
            if t.op == 'lt' and fct in (('eq', 0), ('eq', 1)) and t.a[0].op == 'lv' and t.a[0].a[0] == lp.id:
                hit = (t.a[0], t.a[1], fct[1])
        bits = [r for r in (tested_bit(t, fct, lp.id) for t, fct in b.conds) if r]
        if hit is None and bits:
            # the bits of the position, from the highest one
            P, e, right_side = bits[0]
            if strip1(P) is not m.g('proof', proof, 'pos') or lin(strip_casts(e)) != lin(binop('Sub', binop('Sub', ln, mk('el', mk('range', INT(0), ln), 0, lp.id)), INT(1))):
                return f'the side of a sibling is decided by bit {show(e)[:100]} of {show(P)[:100]}'
        elif hit is None:
            return 'the side of a sibling is not decided by the position'
        else:
            right_side = hit[2]
            r = side_by_half(an, m, proof, ln, b, hit)
            if r:
                return r
        apps = [(n, y) for n, (g, y) in b.updates.items() if y.op == 'append' and y.a[0] is g]
        if len(apps) != 1 or len(apps[0][1].a) != 2 or apps[0][1].a[1].op != 'array' or len(apps[0][1].a[1].a) != 1 \
                or not sibling(apps[0][1].a[1].a[0], lp.id):
            return f'a sibling is recorded as {[show(y)[:200] for _, y in apps]}'
        dirs.append((right_side, apps[0][0]))
    if {n for r, n in dirs if r} & {n for r, n in dirs if not r} or {r for r, _ in dirs} != {0, 1}:
        return 'left and right siblings are not told apart'
    for seq, side in ((left[0], 0), (right[0].a[0], 1)):
        if seq.op != 'comp' or seq.a[0] is not path:
            return f'siblings are not taken from the path: {show(seq)[:200]}'
        for conds, v in comp_paths(seq):
            ds = [fct[1] for t, fct in conds if t.op == 'lt' and fct[0] == 'eq' and t.a[0].op in ('carried', 'lv')] \
                or [r[2] for r in (tested_bit(t, fct, lp.id) for t, fct in conds) if r]
            if ds != [side]:
                return 'a sibling ends on the wrong side of the leaf'
    return None


def side_by_half(an, m, proof, ln, b, hit):
    """the position, reduced at each level by the half it is in, is compared with the half of the width"""
    P, H, right_side = hit
    pi = lvof(an, P)
    if not pi or pi[1] is not m.g('proof', proof, 'pos'):
        return f'the side is not decided by the position of the proof but by {show(P)}'
    x = H
    half = False
    if x.op == 'bin' and x.a[0] == 'Div' and is_int(x.a[2], 2):
        x, half = x.a[1], True
    wi = lvof(an, x)
    if not wi:
        return f'the side of a sibling is decided by {show(H)[:100]}'
    w0 = wi[1]
    if not half:
        if not (w0.op == 'bin' and w0.a[0] == 'Div' and is_int(w0.a[2], 2)):
            return f'the side of the first sibling is decided by {show(w0)[:100]}'
        w0 = w0.a[1]
    if not same_width(w0, ln):
        return f'the width starts as {show(w0)[:100]}'
    nw = next((y for bb, y in wi[2] if bb is b), None)
    if nw is not binop('Div', x, TWO):
        return f'the width becomes {show(nw)[:100]} at the next level'
    np = next((y for bb, y in pi[2] if bb is b), None)
    want = P if right_side else binop('Sub', P, H)
    if np is not want and np is not binop('Rem', P, H):
        return f'the position becomes {show(np)[:100]} at the next level where {show(want)[:100]} is required'
    return None


def strip_casts(t):
    return subst(t, lambda x: x.a[2] if x.op == 'cast' else None)


def tested_bit(t, fct, lid):
    """(number, index of its bit, 1 when it is clear) of a test of one bit"""
    if fct == ('eq', 0):
        clear = 1
    elif fct[0] == 'ne' and 0 in fct[1] or fct == ('eq', 1):
        clear = 0
    else:
        return None
    if t.op == 'eq' and is_int(t.a[1]) and t.a[1].a[0] in (0, 1):
        clear = 1 - clear if t.a[1].a[0] == 0 else clear
        t = t.a[0]
    if t.op != 'bin':
        return None
    x, y = t.a[1:]
    if t.a[0] == 'BitAnd':
        for x, y in ((x, y), (y, x)):
            if y.op == 'pow' and is_int(y.a[0], 2) and contains(y, lambda z: z.op in ('el', 'lv') and lid in z.a) and fct != ('eq', 1):
                return x, y.a[1], clear
    if t.a[0] == 'Rem' and is_int(y, 2) and x.op == 'bin' and contains(x, lambda z: z.op in ('el', 'lv') and lid in z.a):
        if x.a[0] == 'Shr':
            return x.a[1], x.a[2], clear
        if x.a[0] == 'Div' and x.a[2].op == 'pow' and is_int(x.a[2].a[0], 2):
            return x.a[1], x.a[2].a[1], clear
    return None


def same_width(t, ln):
    t = subst(t, lambda x: x.a[2] if x.op == 'cast' and x.a[2] is ln else None)
    return pow2(t) == pow2(power(TWO, ln)) and t is not ln


def toodeep(an, o):
    """the recorded finding: paths longer than the depth type (C19)"""
    return any(t.op == 'fits' and f == ('eq', 0) for t, f in o.conds)


@prop('C23', 'A proof is accepted only at the position of its protocol, and opens one leaf', HOWM, floor=4)
def c23(c):
    c.rule('with(proof, id, message): Err(InvalidProof{id, expected, actual, width}) iff proof.pos != LE(id) mod max(2^len(path) - cofactor, 1)')
    c.rule('otherwise the block of the leaf and the siblings of the path at depths 1, 2, ..., on the side the position dictates; no entropy; convolve = its commitment id')
    m = Mpc(c)
    if not m.ok:
        return
    ip = err_field(c, IPROOF, 'InvalidProof', ('protocol_id', 'expected', 'actual', 'width'))
    f = c.find(BLOCK + '::with')
    if ip is None or f is None:
        return

    def spec(q, proof, pid, msg):
        g = lambda r: m.g('proof', proof, r)
        path = g('path')
        ln = mk('len', path)
        an, o = q.an, q.out
        D = {ln} | {x for t, _ in o.conds for x in subterms(t) if x.op == 'cast' and x.a[2] is ln}
        exp = lambda st, a: any(same(an, st, POS(pid, d, g('cofactor')), a) for d in D)
        cond = find_cond(q, lambda t: t.op == 'eq' and g('pos') in t.a and any(exp(q.st, x) for x in t.a if x is not g('pos')))
        if cond is None:
            raise Mismatch('the position of the proof is not compared with the position of the protocol')
        want = next(x for x in cond.a if x is not g('pos'))
        if not q(cond):
            return 'ret', err(make(IPROOF, ip[0], ip[1], protocol_id=pid, expected=want, actual=g('pos'),
                                   width=pred(lambda an, st, a: same_width(a, ln))))
        sec = [None]

        def section(an, st, a):
            r = with_section(m, an, o, st, proof, pid, msg, path, a)
            if r:
                raise Mismatch(r)
            return True
        return 'ret', ok(m.new('block', method=g('method'), depth=pred(lambda an, st, a: subst(a, lambda x: x.a[2] if x.op == 'cast' else None) is ln),
                               cofactor=g('cofactor'), section=pred(section), entropy=NONE))
    c.conform(f, spec, 'block of a proof', panics=toodeep, flavours=('release',))
    c.conform(f, spec, 'block of a proof', panics='any', flavours=('debug',))
    W = BLOCK + '::with'

    def conv(q, s, pid, msg):
        r = call(W, s, pid, msg)
        if q.is_ok(r):
            return 'ret', ok(call(COMMIT_ID, field(r, 0, 0)))
        return 'ret', err(field(r, 1, 0))
    c.conform(c.find(PROOF + '::convolve'), conv, 'convolve', opaque=(W, COMMIT_ID))


CE = BLOCK + '::conceal_except'


def path_of_section(an, o, st, m, sec, path):
    """the hashes of the concealed nodes by increasing depth"""
    if path.op == 'comp' and path.a[0].op == 'sortedby':
        # sorted pairs of depth and hash (or of hash and depth), without the depths
        v, keys = path.a[0].a
        if v.op != 'comp' or v.a[0] is not sec:
            return False
        ps, pe = comp_paths(v), comp_paths(path)
        el, y = mk('el', sec, 0, v.a[2]), mk('el', path.a[0], 0, path.a[2])
        if len(ps) != 1 or len(pe) != 1 or pe[0][0] or ps[0][1].op != 'tuple':
            return False
        pair = (m.nf('hidden', el, 'depth'), m.nf('hidden', el, 'hash'))
        if set(ps[0][1].a) != set(pair) or len(ps[0][1].a) != 2:
            return False
        d = ps[0][1].a.index(pair[0])
        by_depth = keys is v and d == 0 or (keys.op == 'comp' and keys.a[0] is sec and len(comp_paths(keys)) == 1
                                            and comp_paths(keys)[0][1] is m.nf('hidden', mk('el', sec, 0, keys.a[2]), 'depth'))
        return by_depth and pe[0][1] is field(y, 0, 1 - d) and same(
            an, st, comp(sec, [([(an.discr(el), 'eq', m.nodev['hidden'][0])], ps[0][1])]), v)
    if path.op == 'mvalues':
        mp = path.a[0]
        if mp.op == 'mapof' and mp.a[0].op == 'comp' and mp.a[0].a[0] is sec:
            el = mk('el', sec, 0, mp.a[0].a[2])
            return same(an, st, comp(sec, [([(an.discr(el), 'eq', m.nodev['hidden'][0])], tup(m.nf('hidden', el, 'depth'), m.nf('hidden', el, 'hash')))]), mp.a[0])
        i = lvof(an, mp)
        if not i or i[1].op != 'emptymap':
            return False
        lp, _, body = i
        early = any(k == 'exit' and any(t.op == 'more' and f == ('eq', 1) for t, f in cs) for k, cs in lp.exits)
        if sec not in loop_sources(lp) or not body or early and an.decide(st, mk('more', sec, 0, lp.id)) != 0:
            return False
        el = mk('el', sec, 0, lp.id)
        for b, new in body:
            s = State()
            if not all(learn(an, s, x) for x in b.conds):
                continue
            h = an.decide(s, eqi(an.discr(el), m.nodev['hidden'][0]))
            if h is None:
                return False
            if h and new is not mk('minsert', mp, m.nf('hidden', el, 'depth'), m.nf('hidden', el, 'hash')) or not h and new is not mp:
                return False
        return True
    return False


# ------------------------------------------------------------------ concealing
def poff(base, *ts):
    """linear form of a sum"""
    d, k = {}, 0
    for t in (base,) + ts:
        x, n = t if isinstance(t, tuple) else lin(t)
        k += n
        for u, v in x.items():
            d[u] = d.get(u, 0) + v
            if not d[u]:
                del d[u]
    return powers(d), k


def plog(e):
    """linear form of 2^e for a linear form e of an exponent"""
    x, k = lin(e) if isinstance(e, Term) else e
    return {('pow2', frozenset(x.items()), k): 1}, 0


def aligned_test(an, st, off, mod):
    """what the path knows about off being a multiple of mod (both linear forms): 1, 0 or None"""
    for t, f in st.conds:
        if f not in (('eq', 0), ('eq', 1)) and f[0] != 'ne':
            continue
        r, v = t, f
        if t.op == 'eq':
            r = t.a[0] if is_int(t.a[1], 0) else t.a[1] if is_int(t.a[0], 0) else None
            v = ('eq', 0) if f == ('eq', 1) else ('ne', {0})
            if r is None:
                continue
        elif f == ('eq', 1):
            continue
        if r.op == 'bin' and r.a[0] == 'Rem' and lin(r.a[1]) == off and lin(r.a[2]) == mod:
            return 1 if v == ('eq', 0) else 0
    return None


class Pass:
    """one pass over a section which merges concealed siblings in place"""
    def __init__(self, m, nodes, an, c, lp, secs, D):
        self.m, self.nodes, self.an, self.c, self.lp, self.D = m, nodes, an, c, lp, D
        self.S = secs

    def has(self, st, S, i):
        """is there a node at index i of the section: 1, 0 or None"""
        for n in self.lens:
            d = self.an.decide(st, lt(i, n))
            if d is not None:
                return d
        return None

    def check(self):
        """None, or what is wrong"""
        an, m, lp, S = self.an, self.m, self.lp, self.S
        merges = [b for b in lp.body if self.merging(b)]
        if not merges:
            return 'siblings are never merged'
        # the index of the node, from the place where nodes are merged
        pos = set()
        for b in merges:
            s = State()
            if not all(learn(an, s, x) for x in b.conds):
                continue
            w = self.written(self.after(b))
            if w is None:
                return f'the section becomes {show(self.after(b))[:300]}: two siblings replaced by their parent are required'
            pos.add(w[0])
        if len(pos) != 1:
            return 'no single position is merged'
        self.pos = pos = pos.pop()
        i = lvof(an, pos)
        if not i or i[0] is not lp or i[1] is not INT(0):
            return 'a pass does not start from the first node'
        S0 = next(o for n, (o, g) in self.vars() if g is S)
        # variables equal to the number of nodes
        self.lens = [mk('len', S)]
        for n, (o, g) in lp.init.items():
            if isinstance(g, Term) and g.op == 'lv' and o in (mk('len', S0), mk('len', S0.a[0]) if S0.op == 'mutated' else None):
                if all(lineq(self.upd(b, g), binop('Sub', g, INT(1)) if b in merges else g) for b in lp.body):
                    self.lens.append(g)
        # offset of the node, from the alignment test
        offs = {g for n, (o, g) in lp.init.items() if isinstance(g, Term) and g.op == 'lv' and o is INT(0) and g is not pos
                and any(t.op == 'bin' and t.a[0] == 'Rem' and contains(t, lambda x: x is g)
                        for b in lp.body for c, _ in b.conds for t in subterms(c))}
        if len(offs) != 1:
            return 'no offset of the node within the tree is kept from 0'
        self.off = off = offs.pop()
        for k, cs in lp.exits:
            if k != 'exit':
                continue
            s = State()
            if not all(learn(an, s, x) for x in cs):
                continue
            if self.has(s, S, pos) != 0 and self.has(s, S, binop('Add', pos, INT(1))) != 0:
                return 'a pass stops before the last node: ' + ' & '.join(showcond(x) for x in cs)[:300]
        for b in lp.body:
            s = State()
            if not all(learn(an, s, x) for x in b.conds):
                continue
            r = self.step(b, s, b in merges)
            if r:
                return r
        return None

    def vars(self):
        """all loop variables, those inside of structures included"""
        r = []
        for n, (o, g) in self.lp.init.items():
            r.append((n, (o, g)))
            while g.op == 'with':
                r.append((n, (field(o, g.a[1], g.a[2]), g.a[3])))
                g = g.a[0]
        return r

    def upd(self, b, g):
        return next((x for n, (h, x) in b.updates.items() if h is g), g)

    def after(self, b):
        for n, (h, x) in b.updates.items():
            if h is self.S:
                return x
            y = h
            while y.op == 'with':
                if y.a[3] is self.S:
                    return field(x, y.a[1], y.a[2])
                y = y.a[0]
        return self.S

    def merging(self, b):
        """are nodes merged in this step?"""
        return self.after(b) is not self.S

    def written(self, t):
        """(position of the left node, stored parent) when two neighbours of the section are replaced by one node"""
        S = self.S
        nx = lambda p: binop('Add', p, INT(1))

        def removed(x):
            if x.op == 'out' and x.a[1].op == 'call' and x.a[1].a[0].split('::')[-1] == 'remove' and len(x.a[1].a) == 3 and x.a[0] == 0:
                return x.a[1].a[1], x.a[1].a[2]
        r = removed(t)
        if r and r[0].op == 'upd' and r[0].a[0] is S:
            p, q = r[0].a[1], r[1]
            if q is nx(p):
                return p, r[0].a[2]
            if p is nx(q):
                return q, r[0].a[2]
        if t.op == 'upd':
            r = removed(t.a[0])
            if r and r[0] is S and (r[1] is nx(t.a[1]) or r[1] is t.a[1]):
                return t.a[1], t.a[2]
        return None

    def parent(self, s, new, left, right):
        """is new the parent of two concealed siblings?"""
        m, D = self.m, self.D
        dm = poff(lin(m.nf('hidden', left, 'depth')), ({}, -1))
        depth = pred(lambda an_, st, a: lin(strip1(a)) == dm)
        want = m.hidden(depth, call(COMMIT_ID, self.nodes.branches(depth, pred(lambda an_, st, a: WIDTH(D).a[0](an_, st, a)),
                                                                   m.nf('hidden', left, 'hash'), m.nf('hidden', right, 'hash'))))
        return same(self.an, s, want, new)

    def step(self, b, s, merge):
        an, m, S, pos, D = self.an, self.m, self.S, self.pos, self.D
        where = ' & '.join(showcond(x) for x in b.conds)[:600]
        k = lin(binop('Sub', self.upd(b, pos), pos))
        if k[0] or k[1] < 0 or k[1] > 4:
            return f'the position moves from {show(pos)} to {show(self.upd(b, pos))[:100]}'
        k = k[1]
        off = lin(self.off)
        node = lambda j: mk('index', S, binop('Add', pos, INT(j)) if j else pos)
        hid = m.nodev['hidden'][0]
        kind = lambda j: an.decide(s, eqi(an.discr(node(j)), hid))
        dep = lambda j: m.nf('hidden', node(j), 'depth')
        hgt = lambda j, d=0: plog(poff(lin(D), ({u: -v for u, v in lin(dep(j))[0].items()}, -lin(dep(j))[1] + d)))
        if merge:
            p, new = self.written(self.after(b))
            if kind(0) != 1 or kind(1) != 1 or an.decide(s, eqraw(dep(0), dep(1))) != 1:
                return f'nodes which are not concealed siblings of the same depth are merged when {where}'
            if self.has(s, S, binop('Add', pos, INT(1))) != 1:
                return f'the right sibling may be missing when {where}'
            if aligned_test(an, s, off, hgt(0, 1)) != 1:
                return f'the merged nodes may be of different branches when {where}'
            if not self.parent(s, new, node(0), node(1)):
                return f'two siblings are replaced by {show(new)[:400]}'
            if k != 1 and k != 0:
                return f'a node is skipped without being examined when {where}'
            want = poff(off, hgt(0, 1)) if k else off
            if lin(self.upd(b, self.off)) != want:
                return f'the offset becomes {show(self.upd(b, self.off))[:200]} when {where}'
            return None
        if k == 0:
            return f'a pass makes no progress when {where}'
        o = off
        for j in range(k):
            h = kind(j)
            if h is None:
                return f'a node is skipped whatever its kind when {where}'
            nxt = self.has(s, S, binop('Add', pos, INT(j + 1)))
            if h and not (nxt == 0 or kind(j + 1) == 0 or an.decide(s, eqraw(dep(j), dep(j + 1))) == 0
                          or aligned_test(an, s, o, hgt(j, 1)) == 0):
                return f'concealed siblings may be left unmerged when {where}'
            o = poff(o, hgt(j) if h else ({}, 1))
        if lin(self.upd(b, self.off)) != o:
            return f'the offset becomes {show(self.upd(b, self.off))[:200]} when {where}'
        return None


class Rebuild(Pass):
    """one pass over a section which writes the nodes into a new list, merging concealed siblings"""
    def source(self):
        """the section walked: (iteration variable, section)"""
        for n, (o, g) in self.lp.init.items():
            if isinstance(g, Term) and g.op == 'itr' and g.a[1] == 'rest' and g.a[3] == self.lp.id and g.a[2] == 0 and o.op == 'itr' \
                    and o.a[1] == 'at' and o.a[2] == 0 and o.a[0] is g.a[0]:
                yield g, g.a[0]

    def check(self):
        an, m, lp, N = self.an, self.m, self.lp, self.S
        if next((o for n, (o, g) in self.vars() if g is N), None) is not EMPTY:
            return 'the new section is not started from nothing'
        src = list(self.source())
        if len(src) != 1:
            return 'no section is walked from its first node'
        self.it, self.sec = src[0]
        merges = [b for b in lp.body if self.merging(b)]
        if not merges:
            return 'siblings are never merged'
        self.lens = []
        offs = {g for n, (o, g) in lp.init.items() if isinstance(g, Term) and g.op == 'lv' and o is INT(0)
                and any(t.op == 'bin' and t.a[0] == 'Rem' and contains(t, lambda x: x is g)
                        for b in lp.body for c, _ in b.conds for t in subterms(c))}
        if len(offs) != 1:
            return 'no offset of the node within the tree is kept from 0'
        self.off = offs.pop()
        for k, cs in lp.exits:
            s = State()
            if k == 'exit' and all(learn(an, s, x) for x in cs) and self.has(s, None, 0) != 0:
                return 'a pass stops before the last node: ' + ' & '.join(showcond(x) for x in cs)[:300]
        for b in lp.body:
            s = State()
            if not all(learn(an, s, x) for x in b.conds):
                continue
            r = self.step(b, s, b in merges)
            if r:
                return r
        return None

    def has(self, st, S, i):
        return self.an.decide(st, mk('more', self.sec, i, self.lp.id))

    def node(self, j):
        return mk('el', self.sec, j, self.lp.id)

    def merging(self, b):
        new = self.added(b)
        return new is not None and any(x.op != 'el' or x.a[0] is not self.sec for x in new)

    def added(self, b):
        x = self.after(b)
        if x is self.S:
            return ()
        if x.op == 'append' and x.a[0] is self.S and all(y.op == 'array' for y in x.a[1:]):
            return tuple(z for y in x.a[1:] for z in y.a)
        return None

    def step(self, b, s, merge):
        an, m, D = self.an, self.m, self.D
        where = ' & '.join(showcond(x) for x in b.conds)[:600]
        it, new = self.upd(b, self.it), self.added(b)
        if it.op != 'itr' or it.a[0] is not self.sec or it.a[1] != 'rest' or it.a[3] != self.lp.id or not 1 <= it.a[2] <= 4:
            return f'the pass does not move to the next node when {where}'
        if new is None:
            return f'the section becomes {show(self.after(b))[:300]}'
        k = it.a[2]
        off, node, hid = lin(self.off), self.node, m.nodev['hidden'][0]
        kind = lambda j: an.decide(s, eqi(an.discr(node(j)), hid))
        dep = lambda j: m.nf('hidden', node(j), 'depth')
        hgt = lambda j, d=0: plog(poff(lin(D), ({u: -v for u, v in lin(dep(j))[0].items()}, -lin(dep(j))[1] + d)))
        if merge:
            if k != 2 or len(new) != 1:
                return f'{k} nodes are replaced by {len(new)} when {where}'
            if kind(0) != 1 or kind(1) != 1 or an.decide(s, eqraw(dep(0), dep(1))) != 1:
                return f'nodes which are not concealed siblings of the same depth are merged when {where}'
            if self.has(s, None, 1) != 1:
                return f'the right sibling may be missing when {where}'
            if aligned_test(an, s, off, hgt(0, 1)) != 1:
                return f'the merged nodes may be of different branches when {where}'
            if not self.parent(s, new[0], node(0), node(1)):
                return f'two siblings are replaced by {show(new[0])[:400]}'
            want = poff(off, hgt(0, 1))
        else:
            if new != tuple(node(j) for j in range(k)):
                return f'{k} nodes are kept as {", ".join(show(x)[:80] for x in new)} when {where}'
            want = off
            for j in range(k):
                h = kind(j)
                if h is None:
                    return f'a node is skipped whatever its kind when {where}'
                nxt = self.has(s, None, j + 1)
                if h and not (nxt == 0 or kind(j + 1) == 0 or an.decide(s, eqraw(dep(j), dep(j + 1))) == 0
                              or aligned_test(an, s, want, hgt(j, 1)) == 0):
                    return f'concealed siblings may be left unmerged when {where}'
                want = poff(want, hgt(j) if h else ({}, 1))
        if lin(self.upd(b, self.off)) != want:
            return f'the offset becomes {show(self.upd(b, self.off))[:200]} when {where}'
        return None


def never_empty(an, m, t):
    """a list started empty to which a walk over a section of a block adds a node at every step, and never more than it takes"""
    i = lvof(an, t)
    if not i or i[1] is not EMPTY:
        return False
    P = Rebuild(m, None, an, None, i[0], t, None)
    src = list(P.source())
    if len(src) != 1 or any(k == 'exit' and an_more(cs) for k, cs in i[0].exits):
        return False
    P.it, P.sec = src[0]
    ok = is_section(an, m, P.sec)
    for b in i[0].body:
        new, it = P.added(b), P.upd(b, P.it)
        ok &= new is not None and it.op == 'itr' and 1 <= len(new) <= it.a[2]
    return ok


def an_more(cs):
    """the walk ends while there are elements left"""
    return any(t.op == 'more' and t.a[1] == 0 and f == ('eq', 1) for t, f in cs)


def is_section(an, m, t):
    """the section of a block, as it was or as it was left by the previous pass"""
    while t.op == 'mutated' or t.op == 'lv':
        if t.op == 'mutated':
            t = t.a[0]
            continue
        i = lvof2(an, t)
        if i is None:
            return False
        # what a pass leaves has to fit the type of the section
        t = i[1]
    return t.op == 'field'


def is_known_set(m, t, sec):
    while t.op in ('setof', 'keysof', 'mkeys') or t.op == 'mapof':
        t = t.a[0]
    if t.op != 'comp' or t.a[0] is not sec:
        return False
    ps = comp_paths(t)
    el = mk('el', sec, 0, t.a[2])
    d = mk('discr', el)
    lf = m.nodev['leaf'][0]
    return len(ps) == 1 and ps[0][0] == [(d, ('eq', lf))] and (ps[0][1] is m.nf('leaf', el, 'protocol_id')
                                                               or ps[0][1].op == 'tuple' and ps[0][1].a[0] is m.nf('leaf', el, 'protocol_id'))


def unknown_set(an, m, t, sec, prots):
    """t is the set of the requested ids without the known ones"""
    if t.op == 'setof' and t is not mk('setof', prots):
        return unknown_set(an, m, t.a[0], sec, prots)
    if t.op == 'setdiff':
        return t.a[0] in (prots, mk('setof', prots)) and is_known_set(m, t.a[1], sec)
    if t.op == 'comp' and t.a[0] in (prots, mk('setof', prots)):
        el = mk('el', t.a[0], 0, t.a[2])
        ps = comp_paths(t)
        return len(ps) == 1 and ps[0][1] is el and len(ps[0][0]) == 1 and ps[0][0][0][0].op == 'contains' and ps[0][0][0][0].a[1] is el \
            and is_known_set(m, ps[0][0][0][0].a[0], sec) and ps[0][0][0][1] in (('eq', 0), ('ne', frozenset([1])))
    i = lvof(an, t)
    if not i or i[1] is not mk('setof', prots):
        return False
    lp, _, body = i
    src = [x for x in loop_sources(lp)]
    known = [x for x in src if is_known_set(m, x, sec)]
    if any(k == 'exit' and any(x.op == 'more' and f == ('eq', 1) for x, f in cs) for k, cs in lp.exits) or not body:
        return False
    for b, new in body:
        s = State()
        if not all(learn(an, s, x) for x in b.conds):
            continue
        if sec in src or known:
            el = mk('el', sec, 0, lp.id)
            leaf = an.decide(s, eqi(an.discr(el), m.nodev['leaf'][0]))
            if leaf and new is mk('sremove', t, m.nf('leaf', el, 'protocol_id')) or leaf == 0 and new is t:
                continue
            if known and new is mk('sremove', t, mk('el', known[0], 0, lp.id)):
                continue
        return False
    return True


@prop('C24', 'Concealing hides just the other leaves and merges all siblings, or does nothing', HOWM, floor=8)
def c24(c):
    c.rule('conceal_except(ids): Err(LeafNotKnown(id)) for an id with no revealed leaf, the block unchanged; otherwise the entropy is dropped and every other leaf becomes the concealed node of its id at tree depth')
    c.rule('passes over the section: concealed neighbours of equal depth d aligned at 2^(depth - d + 1) become their parent at d - 1, everything else is kept and counted at its size; '
           'passes repeat until nothing was merged; the number of concealments is returned')
    c.rule('conceal_other(id) = conceal_except([id])')
    m = Mpc(c)
    nodes = Nodes(c)
    if not m.ok or not nodes.ok:
        return
    f = c.find(CE)
    nl = err_field(c, NOLEAF, 'LeafNotKnown', ('0',))
    if f is None or nl is None:
        return
    name = fn_name(f)
    ix = m.block
    for fl in ('release', 'debug'):
        g = c.prog(fl).fns.get(f['d'][0])
        if g is None:
            c.violate('concealing', name, f'not found in the {fl} program')
            continue
        try:
            an, outs = c.analyse(g, (COMMIT_ID,), fl)
        except (Unsupported, RecursionError) as e:
            c.violate('concealing', name, f'could not be analysed: {e}')
            continue
        blk, prots = an.params(g)[:2]
        nok = nerr = 0
        done = set()
        for o in outs:
            st = path_state(an, o)
            if st is None:
                continue
            if o.kind == 'panic':
                if fl == 'release' and not (o.conds and any(t.op == 'call' and t.a[0].split('::')[-1] == 'remove'
                                                            or t.op == 'fits' and t.a[0].op == 'len' and never_empty(an, m, t.a[0].a[0])
                                                            for t in subterms(o.conds[-1][0]))):
                    c.violate('concealing', name, f'panics when {describe(o)[:400]}')
                continue
            c.ob('concealing', name, describe(o))
            final = o.finals.get(blk.a[1], blk)
            if an.decide(st, eqi(an.discr(o.value), 1)) == 1:
                nerr += 1
                if not same(an, st, blk, final):
                    c.violate('concealing', name, f'fails after changing the block: {show(final)[:300]}')
                e = field(o.value, 1, 0)
                x = field(e, nl[0], nl[1]['0'])
                r = not_known(an, m, o, st, x, m.g('block', blk, 'section'), prots)
                if r:
                    c.violate('unknown leaves', name, r)
                continue
            if an.decide(st, eqi(an.discr(o.value), 0)) != 1:
                c.violate('concealing', name, f'returns {show(o.value)[:200]}')
                continue
            nok += 1
            r = concealed(c, m, nodes, an, o, st, blk, prots, final)
            if r:
                c.violate('concealing', name, f'on the path [{describe(o)[:500]}]: {r}')
        if not nok or not nerr:
            c.violate('concealing', name, f'{nok} paths succeed and {nerr} paths fail')

    def other(q, s, pid):
        r = call_in_path(q, CE, s, mk('array', pid))
        if not q.is_ok(r):
            return 'ret', err(field(r, 1, 0)), {0: mk('out', 0, r)}
        return 'ret', ok(UNIT), {0: mk('out', 0, r)}
    c.conform(c.find(BLOCK + '::conceal_other'), other, 'concealing of the others', opaque=(CE,))


def not_known(an, m, o, st, x, sec, prots):
    """x is a requested id which is not known"""
    if x.op in ('index', 'el', 'extreme', 'lastof') and (x.op != 'index' or is_int(x.a[1], 0)):
        src = x.a[0]
        if unknown_set(an, m, src, sec, prots):
            return None
        if x.op == 'el' and src in (prots, mk('setof', prots)):
            for t, f in st.conds:
                if t.op == 'contains' and t.a[1] is x and is_known_set(m, t.a[0], sec) and f != ('eq', 1):
                    return None
    return f'the leaf reported as unknown is {show(x)[:300]}'


def all_known(an, m, o, st, sec, prots):
    for t, f in st.conds:
        for x in subterms(t):
            if x.op == 'len' and an.decide(st, eqi(x, 0)) == 1 and unknown_set(an, m, x.a[0], sec, prots):
                return True
            if x.op == 'more' and f == ('eq', 0) and x is t and unknown_set(an, m, x.a[0], sec, prots):
                return True
    for lp in an.loops.values():
        for src in loop_sources(lp):
            if src in (prots, mk('setof', prots)) and any(e.kind == 'loop' and e.key == lp.id for e in o.events):
                el = mk('el', src, 0, lp.id)
                if lp.body and all(any(t.op == 'contains' and t.a[1] is el and is_known_set(m, t.a[0], sec) and f == ('eq', 1) for t, f in b.conds) for b in lp.body) \
                        and an.decide(st, mk('more', src, 0, lp.id)) != 1:
                    return True
    return False


def concealed(c, m, nodes, an, o, st, blk, prots, final):
    g = lambda r: m.g('block', blk, r)
    for r in ('method', 'depth', 'cofactor'):
        if not same(an, st, g(r), m.g('block', final, r)):
            return f'the {r} is changed'
    if not same(an, st, NONE, m.g('block', final, 'entropy')):
        return 'the entropy is kept'
    if not all_known(an, m, o, st, g('section'), prots):
        return 'succeeds although a requested leaf may be unknown'
    S, count = m.g('block', final, 'section'), field(o.value, 0, 0)
    if S.op != 'lv' or S.a[0] not in an.loops:
        return f'the section becomes {show(S)[:200]}'
    lp = an.loops[S.a[0]]
    rebuilt = next((o_ for _, (o_, h) in Pass(m, nodes, an, c, lp, S, g('depth')).vars() if h is S), None) is EMPTY
    P = (Rebuild if rebuilt else Pass)(m, nodes, an, c, lp, S, g('depth'))
    r = P.check()
    if r:
        return r
    S0 = P.sec if rebuilt else next(o_ for n, (o_, h) in P.vars() if h is S)
    merges = [b for b in lp.body if P.merging(b)]

    def changed(t0, t1):
        """the variable is left as it was at the start of the pass exactly when nothing was merged"""
        return all((lambda d: not d[0] and (d[1] != 0) == (b in merges))(lin(binop('Sub', P.upd(b, t1), t1))) for b in lp.body)
    def merged(st):
        """whether the pass is known to have merged siblings (1) or not to (0)"""
        for n, (o_, h) in P.vars():
            if not (isinstance(h, Term) and h.op == 'lv'):
                continue
            known = []
            if changed(o_, h) or h in P.lens:
                known.append(an.decide(st, eqraw(o_, h)))
            if o_ is INT(0) and changed(o_, h):
                known.append(an.decide(st, eqi(h, 0)))
            if o_ in (TRUE, FALSE) and all(
                    (an_const(P.upd(b, h)) == 1 - o_.a[0]) if b in merges else P.upd(b, h) is h for b in lp.body):
                d = an.decide(st, h)
                known.append(None if d is None else int(d == o_.a[0]))
            if h is S:
                known.append(an.decide(st, eqraw(mk('len', o_), mk('len', h))))
            for d in known:
                if d is not None:
                    return 1 - d
        return None
    if merged(st) != 0:
        return 'concealing may stop after a pass which has merged siblings'
    # the passes: each takes over what the previous one left
    i = lvof2(an, S0)
    if i is None:
        return f'a pass starts from {show(S0)[:200]}'
    lo, first, nexts = i
    for x in nexts:
        if x is not S and x is not S0:
            return f'after a pass the section becomes {show(x)[:200]}'
    for b in lo.body:
        s = State()
        if not all(learn(an, s, x) for x in b.conds) or any(t.op == 'more' and t.a[-1] == lo.id for t, f in b.conds):
            continue
        if merged(s) != 1:
            return 'concealing may never end: another pass is made although the last one may have merged nothing'
    # the leaves
    sec = g('section')
    leaf_lp, stored_ = None, stored
    if first.op == 'comp':
        el = mk('el', sec, 0, first.a[2])
        ps = comp_paths(first)
        if first.a[0] is not sec:
            return 'leaves are concealed in something else than the section of the block'
        for conds, v in ps:
            s = State()
            if all(learn(an, s, x) for x in conds):
                r = leaf_step(an, m, s, el, g('depth'), prots, v)
                if r:
                    return r
    elif lvof2(an, first) and lvof2(an, first)[1] is sec:
        # the nodes replaced in their places one after the other
        leaf_lp, _, body = lvof2(an, first)
        body = list(zip(leaf_lp.body, body))
        at = [x for x in (mk('el', s_, 0, leaf_lp.id) for s_ in loop_sources(leaf_lp)) if x.a[0].op == 'range' and is_int(x.a[0].a[0], 0)
              and x.a[0].a[1] is mk('len', sec)]
        if len(at) != 1:
            at = [mk('el', mk('range', INT(0), mk('len', sec)), 0, leaf_lp.id)] if sec in loop_sources(leaf_lp) else []
        if len(at) != 1:
            return f'the passes start from {show(first)[:200]}'
        if any(k == 'exit' and any(x.op == 'more' and f == ('eq', 1) for x, f in cs) for k, cs in leaf_lp.exits):
            return 'concealing of leaves may stop early'
        el = mk('index', first, at[0])
        rep = {}
        for b, x in body:
            s = State()
            if not all(learn(an, s, y) for y in b.conds):
                continue
            if x is not first:
                if x.op != 'upd' or x.a[0] is not first or x.a[1] is not at[0]:
                    return f'when concealing leaves the section becomes {show(x)[:200]}'
                rep[b] = x.a[2]
            r = leaf_step(an, m, s, el, g('depth'), prots, rep.get(b, el))
            if r:
                return r
        stored_ = lambda b, el: rep.get(b)
    elif first is mk('mutated', sec):
        src = mk('mutiter', sec)
        lps = [an.loops[e.key] for e in o.events if e.kind == 'loop' and src in loop_sources(an.loops[e.key])]
        if len(lps) != 1:
            return 'leaves are not concealed in one pass'
        leaf_lp = lps[0]
        if any(k == 'exit' and any(x.op == 'more' and f == ('eq', 1) for x, f in cs) for k, cs in leaf_lp.exits):
            return 'concealing of leaves may stop early'
        el = mk('el', src, 0, leaf_lp.id)
        for b in leaf_lp.body:
            s = State()
            if not all(learn(an, s, x) for x in b.conds):
                continue
            new = stored(b, el)
            r = 'a node is stored in parts' if new is False else leaf_step(an, m, s, el, g('depth'), prots, el if new is None else new)
            if r:
                return r
    else:
        return f'the passes start from {show(first)[:200]}'
    # the count
    def counts(t):
        i = lvof(an, t)
        return i and i[0] is lp and all(lineq(x, binop('Add', t, INT(1)) if b in merges else t) for b, x in i[2])
    j = lvof(an, count)
    if j and counts(count):
        # one counter for everything
        K = j[1]
        k = lvof(an, K)
        if not k or k[0] is not lo or any(x is not count and x is not K for _, x in k[2]):
            return f'the count of a pass starts from {show(K)[:100]}'
    else:
        # a counter for every pass, added up
        pairs = [(K, M) for n, (_, K) in lo.init.items() for n2, (z, M) in lp.init.items()
                 if K.op == 'lv' and M.op == 'lv' and K is not M and counts(M) and z is INT(0)
                 and (lineq(count, binop('Add', K, M)) or count is K and an.decide(st, eqi(M, 0)) == 1)]
        pairs = [(K, M) for K, M in pairs if all(lineq(x, binop('Add', K, M)) for _, x in lvof(an, K)[2])]
        if not pairs:
            return f'the number returned, {show(count)[:100]}, is not the number of concealments'
        K = pairs[0][0]
        k = lvof(an, K)
    if leaf_lp is not None:
        q = lvof(an, k[1])
        el = mk('el', mk('mutiter', sec), 0, leaf_lp.id)
        if not q or q[0] is not leaf_lp or q[1] is not INT(0) or not all(
                lineq(x, binop('Add', k[1], INT(1)) if stored_(b, el) is not None else k[1]) for b, x in q[2]):
            return 'concealed leaves are not counted one by one from 0'
    return None


def an_const(t):
    return t.a[0] if t.op == 'int' else None


def stored(b, el):
    """the value a loop body leaves in the current element: None when untouched, False when unclear"""
    r = None
    for e in b.events:
        if e.kind == 'store' and el in (e.key, *[x for x in e.args if isinstance(x, Term)]) or e.kind == 'store' and show(el) in str(e.key):
            if r is not None:
                return False
            r = e.args[-1]
    return r


def lvof2(an, t):
    """like lvof, for a variable inside of a structure: (loop, value before it, values after its bodies)"""
    if t.op != 'lv' or t.a[0] not in an.loops:
        return None
    lp = an.loops[t.a[0]]

    def inside(g, o):
        if g is t:
            return o
        while g.op == 'with':
            if g.a[3] is t:
                return field(o, g.a[1], g.a[2])
            g = g.a[0]
        return None
    for n, (o, g) in lp.init.items():
        r = inside(g, o)
        if r is not None:
            return lp, r, [next((inside(h, x) for _, (h, x) in b.updates.items() if inside(h, x) is not None), t) for b in lp.body]
    return None


def leaf_step(an, m, s, el, D, prots, new):
    lf, v = m.nodev['leaf'][0], m.nodev['hidden'][0]
    leaf = an.decide(s, eqi(an.discr(el), lf))
    pid, msg = m.nf('leaf', el, 'protocol_id'), m.nf('leaf', el, 'message')
    kept = None
    for t, f in s.conds:
        x = t.a[0] if t.op == 'eq' and is_int(t.a[1], 1) else t
        if x.op == 'contains' and x.a[1] is pid and x.a[0] in (prots, mk('setof', prots)):
            kept = 1 if f == ('eq', 1) else 0
    if leaf == 0 or leaf and kept == 1:
        return None if same(an, s, el, new) else f'a node to be kept becomes {show(new)[:200]}'
    if leaf and kept == 0:
        return None if same(an, s, m.hidden(D, call(COMMIT_ID, m.inhabited(pid, msg))), new) else f'a leaf is concealed as {show(new)[:300]}'
    return 'a node is ' + ('kept' if new is el else 'concealed') + ' whatever it is'


# ------------------------------------------------------------------ merging
def consumed(b, secs, final=None):
    """nodes a loop body takes out of the sections it walks"""
    r = []
    for n, (g, x) in b.updates.items():
        if x is g:
            continue
        if x.op == 'itr' and x.a[1] == 'rest' and x.a[0].op != 'append' and x.a[0] is not final:
            k0 = g.a[2] if g.op == 'itr' and g.a[0] is x.a[0] and g.a[1] == 'rest' and g.a[3] == x.a[3] else 0
            r += [mk('el', x.a[0], j, x.a[3]) for j in range(k0, x.a[2])]
        elif g.op == 'lv' and any(t is mk('discr', g) for t, _ in b.conds):
            if any(t is mk('discr', g) and f == ('eq', 1) for t, f in b.conds):
                r.append(field(g, 1, 0))
        elif g.op == 'lv':
            d = lin(binop('Sub', x, g))
            if not d[0] and d[1] > 0:
                r += [t for c, _ in b.conds for t in subterms(c) if t.op == 'index' and t.a[0] in secs
                      and not lin(binop('Sub', t.a[1], g))[0] and 0 <= lin(binop('Sub', t.a[1], g))[1] < d[1]]
    return list(dict.fromkeys(r))


def stored_items(an, x, g, n=0):
    if x is g or n > 6:
        return []
    if x.op == 'append':
        return [y for p in x.a for y in stored_items(an, p, g, n + 1)]
    if x.op == 'array':
        return list(x.a)
    i = lvof(an, x) if x.op == 'lv' else None
    return stored_items(an, i[1], g, n + 1) if i else []


def kept(an, b):
    """nodes a loop body stores: appended to a sequence, collected, or held in a variable"""
    r = [b.value] if isinstance(b.value, Term) else []
    for n, (g, x) in b.updates.items():
        if x.op in ('append', 'lv'):
            r += stored_items(an, x, g)
        elif x.op == 'adt' and x is not g:
            r += [y for y in x.a[2:] if isinstance(y, Term)]
        elif x is not g and x.op in ('el', 'field', 'index'):
            r.append(x)
    return r


def cut_off(an, x, g, seen=None):
    """None when x is the sequence g with more put behind it, on all the iterations of the loops that make it; otherwise
    what it is that need not start with g"""
    seen = set() if seen is None else seen
    while x is not g:
        if x.op == 'append':
            x = x.a[0]
        elif x.op == 'lv' and lvof(an, x):
            lp, init, ups = lvof(an, x)
            if x not in seen:
                seen.add(x)
                for _, u in ups:
                    r = cut_off(an, u, x, seen)
                    if r is not None:
                        return r
            x = init
        else:
            # what it started with: anything but the result of a call which changed it
            return x if g is not EMPTY or x.op == 'out' else None
    return None


BUOYT = CV + 'merkle::MerkleBuoy'


@prop('C26', 'Merging keeps the commitment and all revealed leaves, or changes nothing', HOWM, floor=8)
def c26(c):
    c.rule('merge_reveal(other): Err(UnrelatedBlocks{ids}) iff the commitment ids differ, the block unchanged; otherwise only the section changes, and the path has asserted that '
           'node sizes sum up to 2^depth and that the commitment id is the same as before; returns the number of nodes')
    c.rule('every node taken from either section and not put into the merged one is concealed, or equal to a node which is; subtrees are measured by a buoy fed with the depth of each node')
    c.rule('merge_reveal_path(proof, id, message): the error of the block of the proof, otherwise merge_reveal(that block)')
    m = Mpc(c)
    ue = err_field(c, MERR, 'UnrelatedBlocks', ('base_root', 'merged_root'))
    f = c.find(BLOCK + '::merge_reveal')
    if not m.ok or ue is None or f is None:
        return
    name = fn_name(f)
    for fl in ('release', 'debug'):
        g = c.prog(fl).fns.get(f['d'][0])
        try:
            an, outs = c.analyse(g, (COMMIT_ID, BUOYT + '::push', BUOYT + '::level', BUOYT + '::new'), fl)
        except (Unsupported, RecursionError) as e:
            c.violate('merging', name, f'could not be analysed: {e}')
            continue
        a, b = an.params(g)[:2]
        cid = lambda x: call(COMMIT_ID, x)
        nok = nerr = 0
        checked = set()
        for o in outs:
            st = path_state(an, o)
            if st is None or o.kind == 'panic':
                continue
            c.ob('merging', name, describe(o)[:600])
            final = o.finals.get(a.a[1], a)
            same_id = an.decide(st, eqraw(cid(a), cid(b)))
            if an.decide(st, eqi(an.discr(o.value), 1)) == 1:
                nerr += 1
                want = err(make(MERR, ue[0], ue[1], base_root=cid(a), merged_root=cid(b)))
                if same_id != 0:
                    c.violate('merging', name, f'fails for blocks with the same commitment when {describe(o)[:300]}')
                elif not same(an, st, want, o.value):
                    c.violate('merging', name, f'fails with {show(o.value)[:300]}')
                if not same(an, st, a, final):
                    c.violate('merging', name, f'fails after changing the block into {show(final)[:300]}')
                continue
            nok += 1
            if same_id != 1:
                c.violate('merging', name, f'merges unrelated blocks when {describe(o)[:300]}')
            for r in m.block:
                if r != 'section' and not same(an, st, m.g('block', a, r), m.g('block', final, r)):
                    c.violate('merging', name, f'the {r} of the block changes')
            S = m.g('block', final, 'section')
            if not any(an.decide(st, eqraw(cid(x), cid(final))) == 1 for x in (a, b)):
                c.violate('merging', name, 'returns without having checked that the commitment is the same')
            if not width_checked(an, m, st, S, m.g('block', a, 'depth')):
                c.violate('merging', name, 'returns without having checked that the merged nodes make up the whole tree')
            n = field(o.value, 0, 0)
            ln = mk('len', S)
            if n is not length(an, S) and n is not ln:
                u = n.a[2] if n.op == 'cast' else None
                if u is not None and (u is ln or u is length(an, S)) and n.a[1] == 'u16':
                    c.violate('merged count', name, 'the number of nodes is truncated to 16 bits')
                else:
                    c.violate('merged count', name, f'returns {show(n)[:300]}: the number of nodes is required')
            if S.op == 'append' or S.op == 'lv':
                cut = cut_off(an, S, EMPTY)
                if cut is not None:
                    c.violate('merging', name, f'nodes already put into the merged section may be taken out again: it becomes {show(cut)[:300]}')
                check_merge_loops(c, an, m, o, a, b, checked, name, S)
        if not nok or not nerr or not checked:
            c.violate('merging', name, f'{nok} paths succeed, {nerr} paths fail, {len(checked)} loop paths')

    def path(q, s, proof, pid, msg):
        w = call_in_path(q, BLOCK + '::with', proof, pid, msg)
        if not q.is_ok(w):
            return 'ret', pred(lambda an, st, x: an.decide(st, eqi(an.discr(x), 1)) == 1 and contains(x, lambda y: y is field(w, 1, 0))), {0: s}
        r = call_in_path(q, BLOCK + '::merge_reveal', s, field(w, 0, 0))
        return 'ret', r, {0: mk('out', 0, r)}
    c.conform(c.find(BLOCK + '::merge_reveal_path'), path, 'merging of a path', opaque=(BLOCK + '::with', BLOCK + '::merge_reveal'))


def width_checked(an, m, st, S, D):
    w = pow2(power(TWO, D))
    for t, f in st.conds:
        if t.op != 'eq' or f != ('eq', 1):
            continue
        x, y = t.a[:2]
        if pow2(strip1(x)) == w:
            x, y = y, x
        if pow2(strip1(y)) != w:
            continue
        i = lvof(an, x)
        if i and i[1] is INT(0) and S in loop_sources(i[0]) and i[2] and all(k != 'exit' or not any(t.op == 'more' and f == ('eq', 1) for t, f in cs) for k, cs in i[0].exits):
            el = mk('el', S, 0, i[0].id)
            good = True
            for b, new in i[2]:
                s2 = State()
                if not all(learn(an, s2, z) for z in b.conds):
                    continue
                h = an.decide(s2, eqi(an.discr(el), m.nodev['hidden'][0]))
                want = plog(binop('Sub', D, m.nf('hidden', el, 'depth'))) if h else ({}, 1)
                good &= h is not None and lin(binop('Sub', new, x)) == want
            if good:
                return True
        if x.op != 'sum':
            continue
        s = x.a[0]
        if s.op == 'comp' and s.a[0] is S:
            el = mk('el', S, 0, s.a[2])
            good = True
            for cs, v in comp_paths(s):
                s2 = State()
                if not all(learn(an, s2, z) for z in cs):
                    continue
                h = an.decide(s2, eqi(an.discr(el), m.nodev['hidden'][0]))
                want = plog(binop('Sub', D, m.nf('hidden', el, 'depth'))) if h else ({}, 1)
                good &= h is not None and lin(v) == want
            if good:
                return True
    return False


def walk_of_subtree(an, lp, before):
    """a loop which follows a subtree with a buoy starts from its first, deeper node, and ends when it has surfaced: what is wrong"""
    pushes = [b for b in lp.body if any(e.kind == 'call' and e.key == BUOYT + '::push' for e in b.events)]
    buoys = [(o, g) for o, g in lp.init.values() if isinstance(g, Term) and isinstance(o, Term)
             and contains(o, lambda t: t.op == 'call' and t.a[0] == BUOYT + '::new')
             and any(contains(e.args[0], lambda t: t is g) or g.op != 'lv' for b in pushes for e in b.events if e.kind == 'call' and e.key == BUOYT + '::push')]
    if not pushes or len(buoys) != 1:
        return None
    is_level = lambda t: t.op == 'call' and t.a[0] == BUOYT + '::level'
    stop = lambda x: x.a[0] if x.op == 'not' else x
    tops = {t.a[0] for b in lp.body for t in [t for t, _ in b.conds] + [stop(x) for _, x in b.updates.values() if isinstance(x, Term) and x.op in ('not', 'lt')]
            if t.op == 'lt' and is_level(t.a[1])}
    blind = [b for b in lp.body if b not in pushes and any(isinstance(g, Term) and g.op == 'itr' and x is not g for g, x in b.updates.values())]
    if blind:
        return 'a node of a subtree is not counted when ' + ' & '.join(showcond(x) for x in blind[0].conds)[:400]
    if len(tops) != 1:
        return None if not tops else 'a subtree is followed up to different levels'
    top = tops.pop()
    first = {t.a[1] for t in subterms(buoys[0][0]) if t.op == 'call' and t.a[0] == BUOYT + '::new'}
    st = State()
    if not all(learn(an, st, x) for x in before):
        return None
    if any(an.decide(st, lt(top, x)) != 1 and not (an.decide(st, lt(x, top)) == 0 and an.decide(st, eqraw(x, top)) == 0) for x in first):
        return f'a subtree is measured from level {", ".join(show(x)[:80] for x in first)}, which need not be below {show(top)[:80]}'
    level = lambda cs: [f for t, f in cs if t.op == 'lt' and t.a[0] is top and is_level(t.a[1])]
    surfaced = [b for b in lp.body if ('eq', 0) in level(b.conds)]
    # what tells that the buoy has surfaced: a variable which such steps, and no others, change
    asked = lambda o, x: isinstance(x, Term) and x.op == ('lt' if o is TRUE else 'not') and stop(x).op == 'lt' and stop(x).a[0] is top and is_level(stop(x).a[1])
    new = lambda b, g: next((x for _, (h, x) in b.updates.items() if h is g), g)
    flags = [g for n, (o, g) in lp.init.items() if isinstance(g, Term) and g.op == 'lv' and o in (TRUE, FALSE) and (
        surfaced and all(new(b, g) in ((FALSE if o is TRUE else TRUE,) if b in surfaced else (g, o)) for b in lp.body)
        or all(asked(o, new(b, g)) for b in lp.body))]
    inits = {g: o for o, g in lp.init.values() if isinstance(g, Term)}
    for k, cs in lp.exits:
        s = State()
        if k == 'panic' or not all(learn(an, s, x) for x in cs) or not any(t.op == 'more' and f == ('eq', 1) for t, f in cs):
            continue
        if ('eq', 0) not in level(cs) and not any(an.decide(s, g) == 1 - inits[g].a[0] for g in flags):
            return 'a subtree is left before the buoy has surfaced: ' + ' & '.join(showcond(x) for x in cs)[:400]
    for b in lp.body:
        s = State()
        if not all(learn(an, s, x) for x in b.conds):
            continue
        if ('eq', 1) not in level(b.conds) and not any(an.decide(s, g) == inits[g].a[0] for g in flags):
            return 'a subtree is followed after the buoy has surfaced: ' + ' & '.join(showcond(x) for x in b.conds)[:400]
    return None


def check_merge_loops(c, an, m, o, a, b, checked, name, final):
    hid = m.nodev['hidden'][0]
    secs = (m.g('block', a, 'section'), m.g('block', b, 'section'))
    D = m.g('block', a, 'depth')
    todo = [(e.key, o.conds) for e in o.events if e.kind == 'loop']
    seen = set()
    while todo:
        i, before = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        lp = an.loops[i]
        r = walk_of_subtree(an, lp, before)
        if r:
            c.violate('merging', name, r)
        for p in lp.body:
            todo += [(e.key, p.conds) for e in p.events if e.kind == 'loop']
            s = State()
            if not all(learn(an, s, x) for x in p.conds):
                continue
            take = consumed(p, secs, final)
            if not take:
                continue
            k = (i, p.conds if isinstance(p.conds, tuple) else tuple(map(str, p.conds)))
            checked.add(k)
            c.ob('merging', name, ' & '.join(showcond(x) for x in p.conds)[:600])
            keep = kept(an, p)
            for n in take:
                if n in keep or an.decide(s, eqi(an.discr(n), hid)) == 1 or any(
                        an.decide(s, eqraw(n, x)) == 1 for x in keep if x in take):
                    continue
                deep = [t.a[0] for t, f in s.conds if t.op == 'lt' and t.a[1] is D and f == ('eq', 0)]
                if any(t.op == 'lt' and t.a[0] is D and f == ('eq', 1) for t, f in s.conds) or any(an.decide(s, eqraw(d, D)) == 0 for d in deep):
                    continue    # a node deeper than the tree: the sizes can not sum up
                c.violate('merging', name, f'a revealed leaf may be lost: {show(n)[:100]} is dropped when '
                          + ' & '.join(showcond(x) for x in p.conds if 'more' not in showcond(x))[:700])
            for e in p.events:
                if e.kind != 'call' or e.key != BUOYT + '::push':
                    continue
                n, x = take[-1], e.args[1]
                h = an.decide(s, eqi(an.discr(n), hid))
                want = m.nf('hidden', n, 'depth') if h == 1 else D if h == 0 else None
                if x is not want:
                    c.violate('merging', name, f'the size of a node {show(n)[:60]} is measured as of depth {show(x)[:200]}')
                lv = [t for t, f in s.conds if t.op == 'lt' and t.a[1].op == 'call' and t.a[1].a[0] == BUOYT + '::level'
                      and (contains(t.a[1], lambda y: y.op == 'call' and y.a[0] == BUOYT + '::push')
                           # asked before each node rather than after it
                           or f == ('eq', 1) and contains(t.a[1], lambda y: y.op == 'lv' and y.a[0] == i))]
                lv += [t for _, x in p.updates.values() if isinstance(x, Term) and x.op in ('not', 'lt') for t in subterms(x) if t.op == 'lt' and t.a[1].op == 'call'
                       and t.a[1].a[0] == BUOYT + '::level' and contains(t.a[1], lambda y: y.op == 'call' and y.a[0] == BUOYT + '::push')]
                if not lv:
                    c.violate('merging', name, 'a subtree is not followed until its level is at or above the concealed node')


@prop('C27', 'Known ids, messages and proofs of a block are those of its revealed leaves', HOWM, floor=8)
def c27(c):
    c.rule('known_protocol_ids / to_known_message_map: id (and message) of every revealed leaf of the section, in order')
    c.rule('merkle proof of id: conceal everything else (its error is returned), then the hashes of the concealed nodes by increasing depth; method, '
           'cofactor of the block; position LE(id) mod factored width; to_merkle_proof leaves the block unchanged')
    m = Mpc(c)
    if not m.ok:
        return
    sec = lambda s: m.g('block', s, 'section')

    def filt(s, val):
        src = sec(s)
        el = mk('el', src, 0, -1)
        return comp(src, [([(mk('discr', el), 'eq', m.nodev['leaf'][0])], val(m.nf('leaf', el, 'protocol_id'), m.nf('leaf', el, 'message'), el))])
    TP = BLOCK + '::to_merkle_proof'
    c.conform(c.find(BLOCK + '::known_protocol_ids'), lambda q, s: ('ret', filt(s, lambda k, v, e: k)), 'known ids')
    c.conform(c.find(BLOCK + '::to_known_message_map'), lambda q, s: ('ret', mk('mapof', filt(s, lambda k, v, e: tup(k, v)))), 'message map', panics=confined)

    def proof(q, s, pid):
        r = call_in_path(q, CE, s, mk('array', pid))
        if not q.is_ok(r):
            return 'ret', err(field(r, 1, 0))
        after = mk('out', 0, r)
        alt = lambda role: pred(lambda an, st, a: any(same(an, st, m.g('block', x, role), a) for x in (s, after)))
        pos = lambda an, st, a: any(same(an, st, POS(pid, m.g('block', x, 'depth'), m.g('block', y, 'cofactor')), a) for x in (s, after) for y in (s, after))
        o = q.out
        return 'ret', ok(m.new('proof', method=alt('method'), pos=pred(pos), cofactor=alt('cofactor'),
                               path=pred(lambda an, st, a: path_of_section(an, o, st, m, sec(after), a))))
    for n in ('into_merkle_proof', 'to_merkle_proof'):
        f = c.find(f'{BLOCK}::{n}')
        c.conform(f, proof, 'proof of inclusion', opaque=(CE,), panics=confined, flavours=('release',))
        c.conform(f, proof, 'proof of inclusion', opaque=(CE,), panics='any', flavours=('debug',))

    def known(q, s):
        src = sec(s)
        el = mk('el', src, 0, -1)
        p = lambda an, st, a: a.op == 'comp' and a.a[0] is src and bool(comp_paths(a)) and all(
            same(an, st, tup(m.nf('leaf', el, 'protocol_id'), field(call(TP, s, m.nf('leaf', el, 'protocol_id')), 0, 0)), v)
            and all(t is an.discr(el) and f == ('eq', m.nodev['leaf'][0]) or t is an.discr(call(TP, s, m.nf('leaf', el, 'protocol_id'))) and f == ('eq', 0)
                    for t, f in cs) for cs, v in comp_paths(a))
        return 'ret', pred(p)
    c.conform(c.find(BLOCK + '::into_known_proofs'), known, 'known proofs', opaque=(TP,), panics='any')
    KP = BLOCK + '::into_known_proofs'
    FROM = 'core::convert::From::from'
    f = c.find(TREE + '::into_proofs')
    if f:
        an, outs = c.analyse(f, (KP, TP, COMMIT_ID))
        nr = 0
        for o in outs:
            if o.kind == 'ret':
                nr += 1
                v = o.value
                c.ob('proofs of a tree', fn_name(f), describe(o))
                if not (v.op == 'call' and v.a[0] == KP):
                    c.violate('proofs of a tree', fn_name(f), f'returns {show(v)[:300]}: the known proofs of its block are required')
                    continue
                t = an.params(f)[0]
                g = lambda r: m.g('tree', t, r)
                s = leaf_seq(m, t, m.open, lambda n: m.hidden(g('depth'), call(COMMIT_ID, n)))
                want = m.new('block', method=g('method'), depth=g('depth'), cofactor=g('cofactor'), section=s, entropy=some(g('entropy')))
                if not same(an, path_state(an, o), want, v.a[1]):
                    c.violate('proofs of a tree', fn_name(f), f'proofs are those of {show(v.a[1])[:500]} and not of the block of the tree')
        if not nr:
            c.violate('proofs of a tree', fn_name(f), 'no path returns')


@prop('C28', 'A tree, its block and their concealed form have the same commitment', HOWM, floor=8)
def c28(c):
    c.rule('conceal(block) = {depth, cofactor, hash of the single node left at depth 0 when everything is concealed}; conceal(tree) = conceal(block of the tree); conceal(concealed) = itself')
    c.rule('commit_encode of tree, block and concealed form absorbs the encoding of the concealed form once; all three use the same commitment id type')
    m = Mpc(c)
    if not m.ok:
        return
    CON = CV + 'conceal::Conceal'
    g = lambda s, r: m.g('block', s, r)

    def block(q, s):
        r = call_in_path(q, CE, s, pred(lambda an, st, a: a.op == 'array' and not a.a or a.op == 'emptymap'))
        if not q.is_ok(r):
            return 'panic', 'concealing fails'
        after = mk('out', 0, r)
        sec = g(after, 'section')
        first = mk('index', sec, INT(0))
        if q(eqi(mk('len', sec), 0)):
            return 'panic', 'nothing left'
        if not m.is_hidden(q, first) or not q(eqi(m.nf('hidden', first, 'depth'), 0)):
            return 'panic', 'not concealed to the root'
        alt = lambda role: pred(lambda an, st, a: any(same(an, st, g(x, role), a) for x in (s, after)))
        return 'ret', m.new('conc', depth=alt('depth'), cofactor=alt('cofactor'), root=m.nf('hidden', first, 'hash'))
    f = c.impl_fn(CON, BLOCK, 'conceal')
    c.conform(f, block, 'concealed block', opaque=(CE,), flavours=('release',))
    c.conform(f, block, 'concealed block', opaque=(CE,), panics='any', flavours=('debug',))

    def tree(q, t):
        h = lambda r: m.g('tree', t, r)
        s = leaf_seq(m, t, m.open, lambda n: m.hidden(h('depth'), call(COMMIT_ID, n)))
        b = m.new('block', method=h('method'), depth=h('depth'), cofactor=h('cofactor'), section=s, entropy=some(h('entropy')))
        return 'ret', pred(lambda an, st, a: a.op == 'call' and a.a[0] == CONCEAL and len(a.a) == 2 and same(an, st, b, a.a[1]))
    c.conform(c.impl_fn(CON, TREE, 'conceal'), tree, 'concealed tree', opaque=(CONCEAL, COMMIT_ID), panics=confined)
    c.conform(c.impl_fn(CON, CONC, 'conceal'), lambda q, s: ('ret', s), 'concealed form of the concealed')
    ef = fields(c, CV + 'id::CommitEngine', {'hasher': ('hasher', lambda t: t == 'Sha256')})
    ids = set()
    for ty, low in ((TREE, 1), (BLOCK, 1), (CONC, 0)):
        f = c.impl_fn(CV + 'id::CommitEncode', ty, 'commit_encode')
        if f is None or ef is None:
            continue
        i = next(i for i in c.prog().impls if i.get('trait') and strip_generics(i['trait'][1]) == CV + 'id::CommitEncode' and strip_generics(tystr(i['targs'][0])) == ty)
        ids |= {tystr(x['ty']) for x in i['items'] if x['d'][1].endswith('::CommitmentId') and 'ty' in x}
        an, outs = c.analyse(f, (CONCEAL, COMMIT_ID))
        s, e = an.params(f)[:2]
        nr = 0
        for o in outs:
            if o.kind != 'ret':
                continue
            nr += 1
            h = field(o.finals.get(e.a[1], e), 0, ef['hasher'])
            x = h.a[1] if h.op == 'absorb' and len(h.a) == 2 and h.a[0] is field(e, 0, ef['hasher']) and h.a[1].op == 'enc' else None
            k = 0
            if x is not None:
                x = x.a[0]
                while x.op == 'call' and x.a[0] == CONCEAL:
                    x, k = x.a[1], k + 1
            c.ob('commitment', fn_name(f), describe(o))
            if x is not s or k < low:
                c.violate('commitment', fn_name(f), f'the hasher is left as {show(h)[:300]}: the encoding of the concealed form, once, is required')
        if not nr:
            c.violate('commitment', fn_name(f), 'no path returns')
    c.counts['id_types'] = sorted(ids)


@prop('C29', 'Proofs match exactly when they commit to the same tree', HOWM, floor=3)
def c29(c):
    c.rule('matches(a, b) for trees and blocks: commitment ids are equal')
    c.rule('matches(a, b) for merkle proofs must not hold for proofs with different paths below the first sibling, nor depend on the side of the leaf')
    m = Mpc(c)
    if not m.ok:
        return
    for ty in (TREE, BLOCK):
        c.conform(c.impl_fn(MP + 'Proof', ty, 'matches'), lambda q, a, b: ('ret', eqraw(call(COMMIT_ID, a), call(COMMIT_ID, b))),
                  'matching', opaque=(COMMIT_ID,))
    f = c.impl_fn(MP + 'Proof', PROOF, 'matches')
    if f is None:
        return
    an, outs = c.analyse(f)
    a, b = an.params(f)[:2]
    for o in outs:
        if o.kind != 'ret':
            c.violate('matching proofs', fn_name(f), f'panics: [{describe(o)}]')
            continue
        st = path_state(an, o)
        c.ob('matching proofs', fn_name(f), describe(o))
        for v, s in ((v, s) for s, v in an.fork(st, o.value)) if o.value.op in BOOLOPS else ([(o.value.a[0], st)] if o.value.op == 'int' else []):
            if not v:
                continue
            same_cof = an.decide(s, eqraw(m.g('proof', a, 'cofactor'), m.g('proof', b, 'cofactor')))
            pa, pb = m.g('proof', a, 'path'), m.g('proof', b, 'path')
            whole = an.decide(s, eqraw(pa, pb)) == 1 or an.decide(s, M.eqv(an, a, b)) == 1
            empty = an.decide(s, eqi(mk('len', pa), 0)) == 1 and an.decide(s, eqi(mk('len', pb), 0)) == 1
            if same_cof != 1:
                c.violate('matching proofs', fn_name(f), f'proofs with different cofactors match: [{describe(o)}]')
            if not whole and not empty:
                first = an.decide(s, eqraw(mk('index', pa, INT(0)), mk('index', pb, INT(0)))) == 1
                c.violate('matching proofs', fn_name(f), 'only the first sibling is compared' if first
                          else f'proofs with unrelated paths match: [{describe(o)}]')
