from rules import prop
from rules.commit import wrap, fields, CV, COMMIT_ID, MERKLIZE
from spec import *
from ctx import *

MK = CV + 'merkle::'
NODE, HASH, BUOY = MK + 'MerkleNode', MK + 'MerkleHash', MK + 'MerkleBuoy'
ML = MK + 'MerkleLeaves'


def cid(x):
    return call(COMMIT_ID, x)


def unconv(t):
    """a value inside infallible numeric conversions"""
    while t.op == 'call' and len(t.a) == 2 and (t.a[0].startswith(('into<', 'from<')) or 'u256' in t.a[0]) or t.op == 'cast':
        t = t.a[1] if t.op == 'call' else t.a[0]
    return t


def num(x):
    return pred(lambda an, st, a: same(an, st, x, a) or same(an, st, x, unconv(a)))


def bytes_of(an, t):
    t = wrap(an, t)
    if t.op == 'call' and t.a[0].endswith('from_array'):
        t = t.a[1]
    return t


VIRTUAL = pred(lambda an, st, a: bytes_of(an, a) is mk('repeat', INT(255), '32')
               or bytes_of(an, a).op == 'array' and [x for x in bytes_of(an, a).a] == [INT(255)] * 32)


def node_fields(c):
    return fields(c, NODE, {'branching': ('branching', lambda t: 'NodeBranching' in t), 'depth': ('depth', lambda t: t == 'u8'),
                            'width': ('width', lambda t: 'u256' in t), 'node1': ('node1', None), 'node2': ('node2', None)})


class Nodes:
    def __init__(self, c):
        self.f = node_fields(c)
        a = c.prog().adt_by_path(MK + 'NodeBranching')
        self.v = {v['n']: i for i, v in enumerate(a['variants'])} if a else {}
        self.ok = self.f is not None and {'Void', 'Single', 'Branch'} <= set(self.v)
        if not self.ok:
            c.violate('anchor:nodes', NODE, 'the node type or its branching codes were not found')

    def node(self, kind, depth, width, n1=VIRTUAL, n2=VIRTUAL):
        fs = [None] * 5
        f = self.f
        fs[f['branching']] = adt(MK + 'NodeBranching', self.v[kind])
        fs[f['depth']], fs[f['width']], fs[f['node1']], fs[f['node2']] = num(depth), num(width), n1, n2
        return adt(NODE, 0, *fs)

    def void(self, d, w):
        return self.node('Void', d, w)

    def single(self, d, w, n):
        return self.node('Single', d, w, n)

    def branches(self, d, w, a, b):
        return self.node('Branch', d, w, a, b)


@prop('C15', 'A merkle node commits to its branching, depth, width and both children',
      'Each node constructor is evaluated symbolically; the node it commits to must carry each argument in its own field and the '
      'virtual leaf where there is no child.', floor=12)
def c15(c):
    c.rule('void/single/branches(depth, width, n1, n2) is the id of the node with exactly that branching code, depth, width and children; missing children are the all-ones virtual leaf')
    n = Nodes(c)
    if not n.ok:
        return
    for name in ('void', 'single', 'branches'):
        for ty, w in ((NODE, lambda x: x), (HASH, cid)):
            c.conform(c.find(f'{ty}::{name}'), lambda q, *a: ('ret', w(getattr(n, name)(*a))), f'{ty.split("::")[-1]}::{name}', opaque=(COMMIT_ID,))


@prop('C16', 'Merklization commits to every leaf once, in order, in the documented tree shape',
      'The merklization recursion is decided inductively: the entry and one step of the recursive helper are evaluated symbolically '
      'for any number of leaves, the recursive calls being taken at their specification.', floor=10)
def c16(c):
    c.rule('merklize(leaves): the leaf\'s own id for one leaf; otherwise T(ids of the leaves in order, depth 0, width = number of leaves)')
    c.rule('T(s, d, w): void/single/branches node for 0/1/2 ids; else branches(d, w, T(first ceil(n/2), d+1, w), T(the rest, d+1, w))')
    n = Nodes(c)
    f = c.find(HASH + '::merklize')
    if not n.ok or f is None:
        return
    # the recursive helper and the role of its parameters, from the call the entry makes
    an, outs = c.analyse(f, (COMMIT_ID,))
    leaves = an.params(f)[0]
    seq = call(ML + '::merkle_leaves', leaves)
    L = mk('len', seq)
    two = INT(2)
    up, down = binop('Sub', L, binop('Div', L, two)), binop('Div', L, two)
    ups = {mk('ceil2', L), up}
    calls = {t for o in outs if o.kind == 'ret' for t in subterms(o.value) if t.op == 'call' and any(
        isinstance(x, Term) and x.op in ('take', 'skip') for x in t.a[1:])}
    keys = {t.a[0] for t in calls}
    if len(keys) != 1:
        c.violate('recursion', fn_name(f), f'no single recursive helper: {sorted(keys)}')
        return
    key = keys.pop()
    h = c.find(key)
    if h is None:
        return
    roles = {}
    for t in calls:
        for i, x in enumerate(t.a[1:]):
            if x.op in ('take', 'skip'):
                roles['seq'] = i
            elif x is INT(1):
                roles['depth'] = i
            elif x in ups or x is down:
                roles['count'] = i
            elif x is L:
                roles['width'] = i
    if not {'seq', 'depth', 'width'} <= set(roles):
        c.violate('recursion', fn_name(f), f'the helper receives {[show(x)[:80] for t in calls for x in t.a[1:]]}')
        return
    arity = len(next(iter(calls)).a) - 1

    def rec(s, d, cnt, w):
        a = [ANYT] * arity
        a[roles['seq']], a[roles['depth']], a[roles['width']] = s, num(d), num(w)
        if 'count' in roles:
            a[roles['count']] = cnt
        return call(key, *a)

    def T(q, s, item, d, cnt, w):
        ln = mk('len', s)
        small = q(lt(cnt, INT(3)))
        if small:
            if q(eqi(ln, 0)):
                return cid(n.void(d, w))
            if q(lt(ln, two)):
                return cid(n.single(d, w, item(0)))
            return cid(n.branches(d, w, item(0), item(1)))
        half = mk('ceil2', cnt)
        return cid(n.branches(d, w, rec(part(s, 'take', half), binop('Add', d, INT(1)) if d is not INT(0) else INT(1), half, w),
                              rec(part(s, 'skip', half), binop('Add', d, INT(1)) if d is not INT(0) else INT(1), binop('Div', cnt, two), w)))

    def part(s, op, k):
        def f(an, st, a):
            if a.op != op or not same(an, st, k, a.a[1]):
                return False
            x = a.a[0]
            if s is seq:
                # the sequence of the ids of all the leaves
                if x.op != 'comp' or x.a[0] is not seq:
                    return False
                ps = comp_paths(x)
                el = mk('el', seq, 0, x.a[2])
                return len(ps) >= 1 and all(same(an, st, v, cid(el)) for _, v in ps)
            return x is s
        return pred(f)

    def entry(q, l):
        if q(eqi(L, 1)):
            return 'ret', cid(mk('index', seq, INT(0)))
        return 'ret', T(q, seq, lambda i: cid(mk('index', seq, INT(i))), INT(0), L, L)

    def step(q, *ps):
        s, d, w = ps[roles['seq']], ps[roles['depth']], ps[roles['width']]
        cnt = ps[roles['count']] if 'count' in roles else mk('len', s)
        return 'ret', T(q, s, lambda i: mk('index', s, INT(i)), d, cnt, w)

    def fits(an, o):
        return any(t.op == 'fits' and fct == ('eq', 0) for t, fct in o.conds)

    def depth_overflow(an, o):
        # more levels than the depth counter holds: not reachable with 2^32 leaves
        return fits(an, o) or any(t.op == 'fits' or t.op == 'ovf' for t, _ in o.conds)
    c.conform(f, entry, 'merklize', opaque=(COMMIT_ID,), panics=fits, flavours=('release',))
    c.conform(f, entry, 'merklize', opaque=(COMMIT_ID,), panics='any', flavours=('debug',))
    c.conform(h, step, 'merklize step', opaque=(COMMIT_ID,), panics=depth_overflow, flavours=('release',))
    c.conform(h, step, 'merklize step', opaque=(COMMIT_ID,), panics='any', flavours=('debug',))
    k = 0
    for i in c.prog().impls:
        if i.get('trait') and i['trait'][1] == ML and 'crate' in i and i['crate'] == 'commit_verify':
            g = next((c.prog().fns.get(x['d'][0]) for x in i['items'] if x['d'][1].endswith('merkle_leaves')), None)
            k += 1
            c.conform(g, lambda q, self: ('ret', self), 'leaves of a collection', key='leaves:' + strip_generics(tystr(i['targs'][0])) + str(k))
    c.count('collections', k, 6)


@prop('C17', 'A buoy surfaces exactly when its subtree closes, and measures the open depth',
      'One step of each recursive operation is evaluated symbolically, recursive calls being taken as uninterpreted.', floor=8)
def c17(c):
    c.rule('level: that of the innermost stacked buoy; push(0) never surfaces; push surfaces iff the top of the stack closes, an inner surfacing being pushed outwards at its level')
    fs = fields(c, BUOY, {'buoy': ('buoy', lambda t: t == 'D'), 'stack': ('stack', lambda t: 'Option' in t)})
    if not fs:
        return
    B, S = fs['buoy'], fs['stack']
    LV, PU = BUOY + '::level', BUOY + '::push'

    def inner(self):
        return field(field(self, 0, S), 1, 0)

    def new(d):
        x = [None] * 2
        x[B], x[S] = d, NONE
        return adt(BUOY, 0, *x)

    def descends(q, v, self):
        """a loop from the buoy itself to the stack of the buoy it is at, as long as there is one"""
        x = v.a[0] if v.op == 'field' and v.a[0].op == 'lv' else None
        lp = q.an.loops.get(x.a[0]) if x is not None else None
        if lp is None or v is not field(x, 0, B) or q.is_some(field(x, 0, S)):
            return False
        if not any(g is x and o is self for o, g in lp.init.values()):
            return False
        d = q.an.discr(field(x, 0, S))

        def inside(n):
            return n is inner(x) or n.op == 'ptr' and n.a[0] == ('d', x) and n.a[1] == (('f', 0, S), ('f', 1, 0))
        return bool(lp.body) and all(any(t is d and f == ('eq', 1) for t, f in b.conds) and any(g is x and inside(n) for g, n in b.updates.values())
                                     for b in lp.body)

    def level(q, self):
        if q.out.kind == 'ret' and descends(q, q.out.value, self):
            return 'ret', q.out.value
        if q.is_some(field(self, 0, S)):
            return 'ret', call(LV, inner(self))
        return 'ret', field(self, 0, B)

    def push(q, self, d):
        zero = q.eq(d, call('core::default::Default::default<D>'))
        if zero:
            return 'ret', FALSE, {0: self}
        st = field(self, 0, S)
        if not q.is_some(st):
            b = field(self, 0, B)
            if q.eq(d, b):
                return 'ret', TRUE, {0: pred(lambda an, s, a: same(an, s, NONE, field(a, 0, S)) and a.op == 'with'
                                             and minus_one(field(a, 0, B), b))}
            return 'ret', FALSE, {0: with_field(self, 0, S, some(new(d)))}
        r = call(PU, inner(self), d)
        after = mk('out', 0, r)
        if q(eqi(r, 1)):
            cleared = with_field(self, 0, S, NONE)
            o = call(PU, cleared, call(LV, after))
            return 'ret', o, {0: mk('out', 0, o)}
        return 'ret', FALSE, {0: with_field(self, 0, S, with_field(st, 1, 0, after))}

    def minus_one(v, b):
        return v is binop('Sub', b, INT(1)) or v.op == 'out' and 'sub_assign' in show(v) and contains(v, lambda t: t is b)
    c.conform(c.find(BUOY + '::new'), lambda q, d: ('ret', new(d)), 'new buoy')
    c.conform(c.find(LV), level, 'level', opaque=(LV,))
    c.conform(c.find(PU), push, 'push', opaque=(LV, PU))
