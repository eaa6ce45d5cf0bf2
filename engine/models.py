"""Semantics of the standard-library and amplify operations the repository uses.
Everything not modelled here stays an uninterpreted operation of its arguments."""
import re
from terms import *
from load import tystr, strip_generics

BOX = 'alloc::boxed::Box'
TRANSPARENT = {
    'amplify_num::smallint::u5', 'amplify_num::smallint::u1', 'amplify_num::smallint::u2',
    'amplify_num::smallint::u3', 'amplify_num::smallint::u4', 'amplify_num::smallint::u6',
    'amplify_num::smallint::u7', 'amplify_num::smallint::u24',
    'amplify::collection::confinement::Confined', BOX,
    'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull',
    'core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop',
    'core::mem::maybe_dangling::MaybeDangling',
}
NUMNEW = {'amplify_num::smallint::' + x for x in ('u1', 'u2', 'u3', 'u4', 'u5', 'u6', 'u7', 'u24')}
SMALL = {'u1': 1, 'u2': 2, 'u3': 3, 'u4': 4, 'u5': 5, 'u6': 6, 'u7': 7, 'u24': 24}
ITEROPS = {'itr', 'imap', 'ifilter', 'ifmap', 'ienum', 'izip', 'irev', 'itake', 'iskip', 'itw', 'ichain'}
TYPED = {'core::default::Default::default', 'core::str::traits::FromStr::from_str', 'core::convert::Into::into',
         'core::convert::From::from', 'core::convert::TryFrom::try_from'}
DIVERGING = {'core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::assert_failed',
             'core::panicking::panic_display', 'core::panicking::panic_explicit',
             'core::panicking::unreachable_display', 'core::panicking::panic_nounwind',
             'core::option::expect_failed', 'core::option::unwrap_failed', 'core::result::unwrap_failed',
             'std::process::exit', 'std::process::abort', 'core::intrinsics::abort',
             'core::panicking::assert_matches_failed', 'core::panicking::panic_bounds_check',
             'std::rt::panic_fmt', 'std::rt::begin_panic'}
P = 'core::cmp::'
DERIVED_ATOMIC = {P + 'PartialEq::eq', P + 'PartialEq::ne', P + 'Ord::cmp', P + 'PartialOrd::partial_cmp',
                  'core::clone::Clone::clone'}
EMPTY = mk('array')
MODELS = {}


def model(*keys):
    def d(f):
        for k in keys:
            MODELS[k] = f
        return f
    return d


def lookup(key):
    if key.startswith('core::iter::traits::iterator::Iterator::'):
        return MODELS.get(key)
    if key.endswith(('::to_le_bytes', '::to_be_bytes', '::to_ne_bytes')):
        return m_tobytes
    return None


# ---------------------------------------------------------------- helpers
def val(an, st, v):
    """the value behind (chains of) references"""
    return an.deref(st, v)


def fz(an, st, v):
    return an.freeze(st, v)


def ret(st, v):
    return [('ok', st, v)]


def cases(an, st, v, path):
    """splits a value of a two-variant enum: [(state, variant, payload or None)]"""
    out = []
    if v.op == 'adt' and v.a[0] == path:
        return [(st, v.a[1], v.a[2] if len(v.a) > 2 else None)]
    d = mk('discr', v)
    an.dom.setdefault(d, frozenset((0, 1)))
    for s, b in an.fork(st, eqi(d, 1)):
        out.append((s, b, field(v, b, 0)))
    return out


def opt(an, st, v):
    """[(state, payload | None)]"""
    return [(s, (p if i == 1 else None)) for s, i, p in cases(an, st, v, OPTION)]


def res(an, st, v):
    return [(s, i, p) for s, i, p in cases(an, st, v, RESULT)]


def callf(an, st, fr, f, args, span, k):
    """calls a function value and continues with k(state, value) -> outcomes"""
    out = []
    for kind, s, v in (an.call_closure_mut(st, fr, f, args, span) if f.op == 'ptr' else
                       an.call_value(st, fr, f, args, span)):
        if kind == 'ok':
            out.extend(k(s, v))
        else:
            out.append((kind, s, v))
    return out


def newcell(an, st, v):
    an.seq += 1
    c = ('c', an.seq)
    st.cells[c] = v
    return mk('ptr', c, (), 1)


def place(p):
    """the place behind a `&mut`, also when all that is known about the reference is where it came from"""
    return p if p.op == 'ptr' else mk('ptr', ('d', p), (), 1)


def size(an, t):
    return length(an, t)


def append(*xs):
    out = []
    for x in xs:
        out.extend(x.a if x.op == 'append' else [x])
    r = []
    for x in out:
        if x.op == 'array' and not x.a:
            continue
        if r and r[-1].op == 'array' and x.op == 'array':
            r[-1] = mk('array', *(r[-1].a + x.a))
        else:
            r.append(x)
    if not r:
        return EMPTY
    return r[0] if len(r) == 1 else mk('append', *r)


UNSIGNED = {'i8': 'u8', 'i16': 'u16', 'i32': 'u32', 'i64': 'u64', 'isize': 'usize', 'i128': 'u128'}
RANGEFROM = 'core::ops::range::RangeFrom'


def length(an, t):
    if t.op == 'array':
        return INT(len(t.a))
    if t.op == 'repeat' and str(t.a[1]).isdigit():
        return INT(int(t.a[1]))
    if t.op in ('str', 'bytes'):
        return INT(len(t.a[0]))
    if t.op == 'append':
        r = INT(0)
        for x in t.a:
            r = binop('Add', r, length(an, x))
        return r
    if t.op == 'comp' and len(t.a[1]) == 1 and not t.a[1][0].a[0]:
        return length(an, t.a[0])
    if t.op == 'range':
        return binop('Sub', t.a[1], t.a[0])
    if t.op in ('rev', 'sortedby', 'upd', 'mutated', 'enumerated', 'counted'):
        return length(an, t.a[0])
    if t.op == 'ptr':
        return mk('len', t)
    return mk('len', t)


def index(an, base, i):
    if i.op == 'fromend':
        n = length(an, base)
        if n.op == 'int':
            i = INT(n.a[0] - i.a[0].a[0])
    if base.op == 'array' and i.op == 'int' and i.a[0] < len(base.a):
        return base.a[i.a[0]]
    if base.op == 'upd':
        if base.a[1] is i:
            return base.a[2]
        if base.a[1].op == 'int' and i.op == 'int':
            return index(an, base.a[0], i)
    if i.op == 'el' and i.a[0].op == 'range' and is_int(i.a[0].a[0], 0) and i.a[0].a[1] is length(an, base):
        return elem(an, base, i.a[1], i.a[2])
    if base.op == 'comp' and len(base.a[1]) == 1 and not base.a[1][0].a[0]:
        p = base.a[1][0]
        inner = index(an, base.a[0], i)
        return subst(p.a[1], {mk('el', base.a[0], 0, base.a[2]): inner})
    if base.op == 'range':
        return binop('Add', base.a[0], i)
    if base.op == 'enumerated':
        return tup(i, index(an, base.a[0], i))
    if base.op == 'counted':
        n = binop('Add', base.a[1], cast(i, 'usize', UNSIGNED.get(base.a[2], base.a[2])))
        return tup(n, index(an, base.a[0], i)) if base.a[3] else tup(index(an, base.a[0], i), n)
    return mk('index', base, i)


# ---------------------------------------------------------------- comprehensions
# comp(src, (cpath(conds, elem), ...), level): the elements of src mapped by the
# first path whose conditions hold; elements matching no path are left out.
# Inside, the current element is el(src, 0, level), level < 0.
def level(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = 0
        for x in subterms(t):
            if x.op == 'comp':
                r = min(r, x.a[2])
        memo[t] = r
    return r


def mkcomp(src, paths, lid, lp=None):
    """paths: [(conds, elem)] over el(src,0,lid)"""
    if lp is not None:
        # values carried from iteration to iteration are named after their initial value
        def car(x):
            if x.op == 'lv' and x.a[0] == lid:
                i = lp.names.get(x)
                return mk('carried', i if i is not None else mk('undef', 'lv'))
            return None
        memo0 = {}
        paths = [([(subst(t, car, memo0), f) for t, f in cs], subst(e, car, memo0)) for cs, e in paths]
    lv = -1
    for cs, e in paths:
        lv = min(lv, level(e) - 1, *[level(c[0]) - 1 for c in cs]) if cs else min(lv, level(e) - 1)
    m = {mk('el', src, 0, lid): mk('el', src, 0, lv), mk('more', src, 0, lid): TRUE}
    memo = {}
    out = []
    for cs, e in paths:
        cc = []
        dead = False
        for t, (k, v) in cs:
            t2 = subst(t, m, memo)
            if t2.op == 'int':
                if not holds(t2.a[0], k, v):
                    dead = True
                continue
            cc.append(mk('cond', t2, k, v if k == 'eq' else tuple(sorted(v))))
        if dead:
            continue
        cc = sorted(set(cc), key=repr)
        out.append(mk('cpath', tuple(cc), subst(e, m, memo)))
    out = sorted(out, key=repr)
    if len(out) == 1 and not out[0].a[0] and out[0].a[1] is mk('el', src, 0, lv):
        return src
    if all(p.a[1] is out[0].a[1] for p in out) and len(out) > 1 and exhaustive([p.a[0] for p in out]):
        out = [mk('cpath', (), out[0].a[1])]
        if out[0].a[1] is mk('el', src, 0, lv):
            return src
    return mk('comp', src, tuple(out), lv)


def holds(n, k, v):
    return n == v if k == 'eq' else n not in v


def exhaustive(condsets):
    """do two-valued path conditions cover everything? (simple cases only)"""
    if any(not c for c in condsets):
        return True
    atoms = {}
    for cs in condsets:
        for c in cs:
            atoms.setdefault(c.a[0], set())
    t = sorted(atoms, key=lambda x: x.n)[0]
    vals = set()
    for cs in condsets:
        for c in cs:
            if c.a[0] is t:
                vals.add(c.a[2] if c.a[1] == 'eq' else None)
    if not all(any(c.a[0] is t for c in cs) for cs in condsets):
        return False
    if vals != {0, 1}:
        return False
    return all(exhaustive([[c for c in cs if c.a[0] is not t] for cs in condsets
                           if any(c.a[0] is t and c.a[2] == v for c in cs)]) for v in (0, 1))


def base_src(J):
    while J.op in ITEROPS and J.op != 'itr':
        J = J.a[0]
    return J.a[0] if J.op == 'itr' else J


def elem(an, src, k, L):
    """the current element of a loop over src"""
    if src.op == 'comp' and len(src.a[1]) == 1 and not src.a[1][0].a[0]:
        return subst(src.a[1][0].a[1], {mk('el', src.a[0], 0, src.a[2]): elem(an, src.a[0], k, L)})
    if src.op == 'array' and len(src.a) == 1 and k == 0:
        return src.a[0]
    if src.op == 'enumerated':
        inner = src.a[0]
        return tup(elem(an, mk('range', INT(0), length(an, inner)), k, L), elem(an, inner, k, L))
    if src.op == 'counted':
        inner, start, ty, first = src.a
        n = cast(elem(an, mk('range', INT(0), length(an, inner)), k, L), 'usize', UNSIGNED.get(ty, ty))
        n = n if is_int(start, 0) else binop('Add', start, n)
        e = elem(an, inner, k, L)
        return tup(n, e) if first else tup(e, n)
    if src.op == 'range' and not is_int(src.a[0], 0) and length(an, src).op == 'len':
        return binop('Add', src.a[0], elem(an, mk('range', INT(0), length(an, src)), k, L))
    if src.op == 'zipped':
        return tup(elem(an, src.a[0], k, L), elem(an, src.a[1], k, L))
    return mk('el', src, k, L)


def more(an, src, k, L):
    while src.op == 'comp' and len(src.a[1]) == 1 and not src.a[1][0].a[0]:
        src = src.a[0]
    if src.op in ('enumerated', 'counted'):
        return more(an, src.a[0], k, L)
    if src.op == 'range' and not is_int(src.a[0], 0) and length(an, src).op == 'len':
        return more(an, length(an, src).a[0], k, L)
    if src.op == 'zipped':
        return conj(more(an, src.a[0], k, L), more(an, src.a[1], k, L))
    if src.op == 'range' and is_int(src.a[0], 0) and src.a[1].op == 'len':
        return more(an, src.a[1].a[0], k, L)
    if src.op in ('rev', 'mutiter'):
        pass
    return mk('more', src, k, L)


def concrete_src(src):
    if src.op == 'array' and len(src.a) <= 9:
        return len(src.a)
    if src.op == 'range' and src.a[0].op == 'int' and src.a[1].op == 'int' and src.a[1].a[0] - src.a[0].a[0] <= 9:
        return src.a[1].a[0] - src.a[0].a[0]
    if src.op in ('enumerated', 'counted', 'rev', 'mutiter'):
        return concrete_src(src.a[0])
    if src.op == 'comp' and len(src.a[1]) == 1 and not src.a[1][0].a[0]:
        return concrete_src(src.a[0])
    return None


# ---------------------------------------------------------------- iterators
def as_iter(an, st, v):
    """iterator state for a value (or for the place a pointer designates)"""
    if v.op in ITEROPS:
        return v
    if v.op == 'ptr':
        x = an.read(st, v.a[0], v.a[1])
        if x.op in ITEROPS:
            return v
        if x.op == 'ptr':
            return as_iter(an, st, x)
        if v.a[2]:
            # iteration over mutable references to the elements
            fx = fz(an, st, x)
            an.write_quiet(st, v.a[0], v.a[1], mk('mutated', fx))
            return mk('itr', mk('mutiter', fx), 'at', 0)
        return mk('itr', fz(an, st, x), 'at', 0)
    if v.op == 'adt' and v.a[0] == RANGE and len(v.a) == 4:
        return mk('itr', mk('range', v.a[2], v.a[3]), 'at', 0)
    if v.op == 'adt' and v.a[0] == OPTION:
        return mk('itr', mk('array', *v.a[2:]), 'at', 0)
    if v.op == 'append' and any(x.op == 'array' for x in v.a):
        return mk('itr', fz(an, st, v), 'at', 0)
    return mk('itr', fz(an, st, v), 'at', 0)


def to_rest(an, J, lp):
    if J.op == 'itr':
        if J.a[1] == 'at':
            src = J.a[0] if J.a[2] == 0 else mk('skip', J.a[0], INT(J.a[2]))
            if src.op == 'array' and len(src.a) != 1:
                pass
            return mk('itr', src, 'rest', 0, lp.id)
        if J.a[3] != lp.id:
            return mk('itr', mk('restof', J.a[0], J.a[2], J.a[3]), 'rest', 0, lp.id)
        return J
    if J.op in ('izip', 'ichain'):
        return mk(J.op, to_rest(an, J.a[0], lp), to_rest(an, J.a[1], lp))
    if J.op in ITEROPS:
        if J.op == 'ienum':
            # positions: pair with the range of indices
            return J
        return mk(J.op, to_rest(an, J.a[0], lp), *J.a[1:])
    return J


def gen_iter(an, g, b, lp, name='iter'):
    """generalises an iterator over the iterations of a loop"""
    if g.op != b.op:
        return None
    if g.op == 'itr':
        if g.a[1] == 'rest' and b.a[1] == 'rest' and g.a[0] is b.a[0] and g.a[3] == b.a[3] == lp.id:
            return g
        gs = g.a[0]
        bs = b.a[0]
        if gs is bs and g.a[1] == 'at':
            return to_rest(an, g, lp)
        if gs is bs and g.a[1] == 'rest':
            return to_rest(an, g, lp) if g.a[3] != lp.id else g
        return mk('itr', mk('lv', lp.id, name), 'rest', 0, lp.id)
    if g.op in ('izip', 'ichain'):
        x = gen_iter(an, g.a[0], b.a[0], lp, name + '.0') if g.a[0] is not b.a[0] else g.a[0]
        y = gen_iter(an, g.a[1], b.a[1], lp, name + '.1') if g.a[1] is not b.a[1] else g.a[1]
        return None if x is None or y is None else mk(g.op, x, y)
    if g.a[1:] != b.a[1:]:
        return None
    x = g.a[0] if g.a[0] is b.a[0] else gen_iter(an, g.a[0], b.a[0], lp, name)
    return None if x is None else mk(g.op, x, *g.a[1:])


def next_(an, st, J, fr, span):
    """[(state, J', element | None | 'panic…')]"""
    if J.op == 'ptr':
        x = an.read(st, J.a[0], J.a[1])
        if x.op not in ITEROPS:
            x = as_iter(an, st, x)
        out = []
        for s, j2, e in next_(an, st, x, fr, span):
            if j2 is not x or an.read(s, J.a[0], J.a[1]) is not j2:
                an.write_quiet(s, J.a[0], J.a[1], j2)
            out.append((s, J, e))
        return out
    if J.op == 'itr':
        src = J.a[0]
        if J.a[1] == 'at':
            k = J.a[2]
            out = []
            n = length(an, src)
            for s, b in an.fork(st, lt(INT(k), n)):
                if b:
                    out.append((s, mk('itr', src, 'at', k + 1), index(an, src, INT(k))))
                else:
                    out.append((s, J, None))
            return out
        _, _, k, L = J.a
        out = []
        inner = src
        # iterate through (possibly partial) comprehensions
        chain = []
        while inner.op == 'comp':
            chain.append(inner)
            inner = inner.a[0]
        m = more(an, inner, k, L)
        for s, b in an.fork(st, m):
            if not b:
                out.append((s, J, None))
                continue
            J2 = mk('itr', src, 'rest', k + 1, L)
            sts = [(s, elem(an, inner, k, L))]
            for c in reversed(chain):
                nxt = []
                for s1, e in sts:
                    for p in c.a[1]:
                        s2 = s1.copy()
                        mm = {mk('el', c.a[0], 0, c.a[2]): e}
                        okc = [s2]
                        for q in p.a[0]:
                            t = subst(q.a[0], mm)
                            n2 = []
                            for s3 in okc:
                                if t.op == 'int':
                                    if holds(t.a[0], q.a[1], q.a[2]):
                                        n2.append(s3)
                                elif an.decide(s3, t) is not None:
                                    if holds(an.decide(s3, t), q.a[1], q.a[2]):
                                        n2.append(s3)
                                elif t.op in ('eq', 'not', 'and') and q.a[1] == 'eq':
                                    n2.extend(an.assume(s3, t, q.a[2]))
                                elif an.learn(s3, t, q.a[1], q.a[2]):
                                    n2.append(s3)
                            okc = n2
                        for s3 in okc:
                            nxt.append((s3, subst(p.a[1], mm)))
                sts = nxt
            for s1, e in sts:
                out.append((s1, J2, e))
        return out
    if J.op == 'imap':
        out = []
        for s, j, e in next_(an, st, J.a[0], fr, span):
            if e is None or isinstance(e, str):
                out.append((s, mk('imap', j, J.a[1]), e))
                continue
            for kind, s2, v in callf(an, s, fr, J.a[1], [e], span, lambda s, v: [('ok', s, v)]):
                out.append((s2, mk('imap', j, J.a[1]), v if kind == 'ok' else 'panic'))
        return out
    if J.op in ('ifilter', 'ifmap'):
        if is_at(J):
            return next_(an, st, mk('itr', collect_term(an, st, J), 'at', 0), fr, span)
        out = []
        for s, j, e in next_(an, st, J.a[0], fr, span):
            j2 = mk(J.op, j, J.a[1])
            if e is None or isinstance(e, str):
                out.append((s, j2, e))
                continue
            arg = e
            for kind, s2, v in callf(an, s, fr, J.a[1], [arg], span, lambda s, v: [('ok', s, v)]):
                if kind != 'ok':
                    out.append((s2, j2, 'panic'))
                elif J.op == 'ifilter':
                    for s3, b in an.fork(s2, v):
                        if b:
                            out.append((s3, j2, e))
                else:
                    for s3, p in opt(an, s2, v):
                        if p is not None:
                            out.append((s3, j2, p))
        return out
    if J.op == 'izip':
        out = []
        for s, j1, e1 in next_(an, st, J.a[0], fr, span):
            if e1 is None or isinstance(e1, str):
                out.append((s, mk('izip', j1, J.a[1]), e1))
                continue
            for s2, j2, e2 in next_(an, s, J.a[1], fr, span):
                out.append((s2, mk('izip', j1, j2), e2 if e2 is None or isinstance(e2, str) else tup(e1, e2)))
        return out
    if J.op == 'itake':
        n = J.a[1]
        if n.op == 'int' and n.a[0] == 0:
            return [(st, J, None)]
        out = []
        if is_at(J):
            return next_(an, st, mk('itr', collect_term(an, st, J), 'at', 0), fr, span)
        t = mk('taking', n, J.n)
        for s0, b in an.fork(st, t):
            if not b:
                out.append((s0, J, None))
                continue
            for s, j, e in next_(an, s0, J.a[0], fr, span):
                out.append((s, mk('itake', j, n), e))
        return out
    if J.op == 'itw':
        out = []
        for s, j, e in next_(an, st, J.a[0], fr, span):
            j2 = mk('itw', j, J.a[1])
            if e is None or isinstance(e, str):
                out.append((s, j2, e))
                continue
            for kind, s2, v in callf(an, s, fr, J.a[1], [e], span, lambda s, v: [('ok', s, v)]):
                if kind != 'ok':
                    out.append((s2, j2, 'panic'))
                    continue
                for s3, b in an.fork(s2, v):
                    out.append((s3, j2, e if b else None))
        return out
    raise_unsupported('next on ' + J.op)


def raise_unsupported(m):
    from absint import Unsupported
    raise Unsupported(m)


def is_at(J):
    while J.op in ITEROPS and J.op != 'itr':
        J = J.a[0]
    return J.op == 'itr' and J.a[1] == 'at'


def has_ptr(J):
    while J.op in ITEROPS and J.op != 'itr':
        J = J.a[0]
    return J.op == 'ptr'


def simplify_iter(an, st, J):
    """adapters that are values: a base iterator over a derived sequence"""
    if J.op == 'ienum' and J.a[0].op == 'itr' and J.a[0].a[1] == 'at' and J.a[0].a[2] == 0:
        return mk('itr', mk('enumerated', J.a[0].a[0]), 'at', 0)
    return J


def root_frame(an):
    return an.root


def has_filter(J):
    while J.op in ('ifilter', 'ifmap', 'imap'):
        if J.op != 'imap':
            return True
        J = J.a[0]
    return False


def collect_term(an, st, J):
    """the sequence an iterator yields, as a value (no effect on st)"""
    J = simplify_iter(an, st, J)
    if J.op == 'itr' and J.a[1] == 'at':
        return J.a[0] if J.a[2] == 0 else mk('skip', J.a[0], INT(J.a[2]))
    if J.op == 'itr':
        return mk('restof', J.a[0], J.a[2], J.a[3])
    if J.op == 'irev':
        x = collect_term(an, st, J.a[0])
        return rev(x)
    if J.op == 'itake':
        if J.a[0].op == 'ptr':
            return mk('take', collect_term(an, st, an.read(st, J.a[0].a[0], J.a[0].a[1])), fz(an, st, J.a[1]))
        return mk('take', collect_term(an, st, J.a[0]), fz(an, st, J.a[1]))
    if J.op == 'iskip':
        return mk('skip', collect_term(an, st, J.a[0]), fz(an, st, J.a[1]))
    if J.op == 'ichain':
        return append(collect_term(an, st, J.a[0]), collect_term(an, st, J.a[1]))
    if J.op == 'ptr':
        return collect_term(an, st, an.read(st, J.a[0], J.a[1]))
    if J.op not in ITEROPS:
        return J
    s = st.copy()
    outs = collect_run(an, s, J, an.root, None)
    oks = [v for k, _, v in outs if k == 'ok']
    if len(oks) == 1:
        return oks[0]
    return mk('opaqueiter', *[x if not isinstance(x, Term) else fz(an, st, x) for x in J.a[1:]])


def rev(x):
    if x.op == 'rev':
        return x.a[0]
    if x.op == 'array':
        return mk('array', *x.a[::-1])
    return mk('rev', x)


def collect_run(an, st, J, fr, span):
    """runs an iterator to exhaustion: [(kind, state, sequence value)]"""
    J = simplify_iter(an, st, J)
    if J.op == 'itr' and J.a[1] == 'at':
        return [('ok', st, J.a[0] if J.a[2] == 0 else mk('skip', J.a[0], INT(J.a[2])))]
    if J.op == 'irev':
        return [(k, s, rev(v) if k == 'ok' else v) for k, s, v in collect_run(an, st, J.a[0], fr, span)]
    if J.op == 'ichain':
        out = []
        for k, s, v in collect_run(an, st, J.a[0], fr, span):
            if k != 'ok':
                out.append((k, s, v))
                continue
            for k2, s2, v2 in collect_run(an, s, J.a[1], fr, span):
                out.append((k2, s2, append(v, v2) if k2 == 'ok' else v2))
        return out
    if J.op == 'itake':
        if J.a[0].op == 'ptr':
            p = J.a[0]
            inner = an.read(st, p.a[0], p.a[1])
            if inner.op not in ITEROPS:
                inner = as_iter(an, st, inner)
            c = collect_term(an, st, inner)
            n = fz(an, st, J.a[1])
            an.write_quiet(st, p.a[0], p.a[1], mk('itr', mk('skip', c, n), 'at', 0))
            return [('ok', st, mk('take', c, n))]
        return [(k, s, mk('take', v, fz(an, s, J.a[1])) if k == 'ok' else v)
                for k, s, v in collect_run(an, st, J.a[0], fr, span)]
    if J.op == 'iskip':
        return [(k, s, mk('skip', v, fz(an, s, J.a[1])) if k == 'ok' else v)
                for k, s, v in collect_run(an, st, J.a[0], fr, span)]
    if J.op == 'itr':
        return [('ok', st, mk('restof', J.a[0], J.a[2], J.a[3]))]
    if is_at(J) and concrete_src(base_src(J)) is not None and J.op != 'itr':
        acc = newcell(an, st, EMPTY)

        def cstep(s, e):
            s.cells[acc.a[0]] = append(s.cells[acc.a[0]], mk('array', fz(an, s, e)))
            return [('next', s, None)]
        return [('ok', s, s.cells[acc.a[0]]) if k == 'exhaust' else (k, s, v)
                for k, s, v in an.iterate_concrete(st, J, cstep, fr, span)]
    if J.op == 'ptr' and an.read(st, J.a[0], J.a[1]).op == 'itr':
        x = an.read(st, J.a[0], J.a[1])
        r = collect_run(an, st, x, fr, span)
        an.write_quiet(st, J.a[0], J.a[1], mk('itr', EMPTY, 'at', 0))
        return r

    def step(s, e):
        return [('next', s, fz(an, s, e))]
    outs, lp = an.iterate(st, J, step, 'collect', fr, span)
    r = []
    paths = [(b.conds, b.value) for b in lp.body]
    src = lp.src
    if src.op == 'ptr' or any(p[1] is None for p in paths):
        v = mk('opaquecollect', *[p[1] for p in paths if p[1] is not None])
    elif src.op == 'comp':
        # conditions and elements are already expressed over the innermost source
        inner = src
        while inner.op == 'comp':
            inner = inner.a[0]
        v = mkcomp(inner, paths, lp.id, lp)
    else:
        v = mkcomp(src, paths, lp.id, lp)
    if any(o[0] == 'break' for o in outs) or contains(v, lambda x: x.op in ('lv', 'taking') and lp.id in x.a):
        v = mk('opaquecollect', v)
    for kind, s, x in outs:
        if kind == 'exhaust':
            if J.op == 'itw':
                pass
            # the exhaustion condition is a fact about the loop only
            s.conds = [c for c in s.conds if not (c[0].op == 'more' and c[0].a[2] == lp.id)]
            r.append(('ok', s, v))
        elif kind == 'panic':
            r.append(('panic', s, x))
        else:
            r.append((kind, s, x))
    # several exhaustion states only differ in facts about the loop: keep one
    oks = [x for x in r if x[0] == 'ok']
    if len(oks) > 1 and not mutating(an, oks):
        r = [x for x in r if x[0] != 'ok'] + [oks[0]]
    return r


def mutating(an, oks):
    a = oks[0][1]
    return any(o[1].cells != a.cells for o in oks[1:])


def accumulators(an, fr, lp, G, st, outs, res_, n_co):
    """a sequence that a loop only appends to becomes `initial ++ comprehension` once the
    loop has run to exhaustion"""
    ms = set()
    for o in outs:
        for t, f in o[1].conds[n_co:]:
            if t.op == 'more' and t.a[2] == lp.id:
                ms.add(t)
    if len(ms) == 2:
        return bounded_pull(an, lp, G, st, outs, res_, n_co, ms)
    if len(ms) != 1:
        return
    m = ms.pop()
    src, k = m.a[0], m.a[1]
    if k != 0:
        return
    backs = [o for o in outs if o[0] == 'back']
    repl = {}
    for cell, g in G.cells.items():
        for lv, path in lvs_in(g, lp.id):
            if lv in repl:
                continue
            init = find_init(st.cells.get(cell, cell[1] if cell[0] == 'd' else None), path)
            if init is None:
                continue
            paths = []
            good = True
            kind = None
            for o in backs:
                b = o[1].cells.get(cell)
                b = proj(b, path) if b is not None else None
                if b is None:
                    good = False
                    break
                if b is lv:
                    continue
                if b.op == 'append' and b.a[0] is lv:
                    paths.append((o[1].conds[n_co:], an.freeze(o[1], append(*b.a[1:]))))
                    continue
                if b.op in ('minsert', 'sinsert') and b.a[0] is lv and init.op in ('emptymap', 'emptyset'):
                    # filling an empty map or set: collecting into it
                    kind = b.op
                    e = mk('array', an.freeze(o[1], tup(*b.a[1:]) if b.op == 'minsert' else b.a[1]))
                    if any(contains(t, lambda x: x is lv) for t, _ in o[1].conds[n_co:]):
                        good = False
                        break
                    paths.append((o[1].conds[n_co:], e))
                    continue
                good = False
                break
            if not good or not paths:
                continue
            if any(contains(e, lambda x: x is lv) for _, e in paths):
                continue
            if all(e.op == 'array' and len(e.a) == 1 for _, e in paths):
                c = mkcomp(src, [(cs, e.a[0]) for cs, e in paths], lp.id, lp)
            else:
                c = mk('flat', mkcomp(src, paths, lp.id, lp))
            repl[lv] = append(init, c) if kind is None else mk('mapof' if kind == 'minsert' else 'setof', c)
    if not repl:
        return
    for o in res_:
        s = o[1]
        if (m, ('eq', 0)) in s.conds[n_co:]:
            memo = {}
            for c, v in list(s.cells.items()):
                s.cells[c] = subst_app(v, repl, memo)


def bounded_pull(an, lp, G, st, outs, res_, n_co, ms):
    """for _ in 0..n { if let Some(x) = iter.next() { v.push(f(x)) } }: takes the first n elements of iter"""
    for m1 in ms:
        m2 = next(x for x in ms if x is not m1)
        cnt, src = m1.a[0], m2.a[0]
        if cnt.op == 'range' and is_int(cnt.a[0], 0) and m1.a[1] == m2.a[1] == 0:
            break
    else:
        return
    its = [c for c, g in G.cells.items() if g.op in ITEROPS and not has_filter(g) and base_of(g).op == 'itr' and base_of(g).a[0] is src
           and st.cells.get(c) not in (None, g) and (st.cells[c] is src or is_at(st.cells[c]))]
    if len(its) != 1:
        return
    pulled = []
    for o in outs:
        cs = o[1].conds[n_co:]
        if o[0] != 'back':
            if o[0] != 'panic' and cs != [(m1, ('eq', 0))]:
                return
            continue
        if cs == [(m1, ('eq', 1)), (m2, ('eq', 1))]:
            pulled.append(o)
        elif cs != [(m1, ('eq', 1)), (m2, ('eq', 0))]:
            return
        elif any(o[1].cells.get(c) is not g for c, g in G.cells.items() if not (g.op in ITEROPS and base_of(g).a[0] is cnt)):
            return
    if len(pulled) != 1:
        return
    s = pulled[0][1]
    n, repl = cnt.a[1], {}
    for cell, g in G.cells.items():
        for lv, path in lvs_in(g, lp.id):
            init = find_init(st.cells.get(cell), path)
            b = s.cells.get(cell)
            b = proj(b, path) if b is not None else None
            if init is None or b is None or b.op != 'append' or b.a[0] is not lv or len(b.a) != 2 or b.a[1].op != 'array' or len(b.a[1].a) != 1:
                return
            e = an.freeze(s, b.a[1].a[0])
            if contains(e, lambda x: x.op in ('lv', 'el') and lp.id in x.a and not (x.op == 'el' and x.a[0] is src)):
                return
            repl[lv] = append(init, sub_take(mkcomp(src, [([], e)], lp.id, lp), n))
    rest = mk('itr', sub_skip(collect_term(an, st, as_iter(an, st, st.cells[its[0]])), n), 'at', 0)
    for o in res_:
        if o[0] != 'panic':
            memo = {}
            for c, v in list(o[1].cells.items()):
                o[1].cells[c] = subst_app(v, repl, memo)
            o[1].cells[its[0]] = rest


def base_of(J):
    while J.op in ITEROPS and J.op != 'itr':
        J = J.a[0]
    return J


def subst_app(v, repl, memo):
    r = subst(v, repl, memo)
    return r


def lvs_in(g, lid, path=()):
    if g.op == 'lv':
        if g.a[0] == lid:
            yield g, path
    elif g.op == 'with':
        yield from lvs_in(g.a[3], lid, path + ((g.a[1], g.a[2]),))
        yield from lvs_in(g.a[0], lid, path)
    elif g.op == 'adt':
        for i, x in enumerate(g.a[2:]):
            yield from lvs_in(x, lid, path + ((g.a[1], i),))
    elif g.op == 'tuple':
        for i, x in enumerate(g.a):
            yield from lvs_in(x, lid, path + ((0, i),))


def proj(v, path):
    for (vv, i) in path:
        v = field(v, vv, i)
    return v


def find_init(v, path):
    return None if v is None else proj(v, path)


# ---------------------------------------------------------------- transparent operations
@model('core::clone::Clone::clone', 'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut',
       'alloc::borrow::ToOwned::to_owned', 'alloc::slice::to_vec', 'alloc::slice::into_vec',
       'core::convert::AsRef::as_ref', 'core::ops::deref::Deref::deref', 'core::hint::must_use',
       'core::hint::black_box', 'core::convert::identity',
       'alloc::vec::Vec::as_slice', 'core::array::as_slice', 'alloc::boxed::Box::as_ref',
       'alloc::boxed::Box::new', 'alloc::boxed::Box::into_inner',
       'alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'alloc::string::String::into_bytes', 'core::str::as_bytes', 'core::cmp::Reverse',
       'alloc::vec::Vec::into_boxed_slice', 'core::option::Option::as_deref',
       'amplify::collection::confinement::Confined::into_inner',
       'amplify::collection::confinement::Confined::as_inner',
       'amplify::collection::confinement::Confined::to_inner',
       'amplify::collection::confinement::Confined::as_unconfined',
       'amplify::collection::confinement::Confined::to_unconfined',
       'amplify::collection::confinement::Confined::release',
       'amplify::collection::confinement::Confined::as_slice',
       'amplify_num::smallint::u5::to_u8', 'amplify_num::smallint::u5::as_u8', 'amplify_num::smallint::u5::into_u8',
       'amplify_num::smallint::u24::into_u32', 'amplify_num::smallint::u24::to_u32',
       'alloc::boxed::box_assume_init_into_vec_unsafe')
def m_transparent(an, st, fr, key, targs, args, span):
    v = args[0]
    if key.endswith('::clone') or key.endswith('::borrow') or key.endswith('Option::as_deref'):
        if v.op == 'ptr' and not v.a[2]:
            x = an.read(st, v.a[0], v.a[1])
            return ret(st, x)
        if v.op == 'ptr':
            return ret(st, an.read(st, v.a[0], v.a[1]))
    if key.endswith('box_assume_init_into_vec_unsafe'):
        v = an.deref(st, v)
        while v.op == 'with':
            v = v.a[3]
        return ret(st, v)
    return ret(st, v)


@model('core::convert::AsMut::as_mut', 'core::ops::deref::DerefMut::deref_mut', 'core::borrow::BorrowMut::borrow_mut',
       'alloc::vec::Vec::as_mut_slice', 'alloc::boxed::Box::as_mut')
def m_mutref(an, st, fr, key, targs, args, span):
    return ret(st, args[0])


@model('alloc::boxed::Box::new_uninit')
def m_uninit(an, st, fr, key, targs, args, span):
    return ret(st, newcell(an, st, mk('undef', 'box')))


@model('core::mem::drop', 'core::mem::forget')
def m_drop(an, st, fr, key, targs, args, span):
    return ret(st, UNIT)


@model('core::mem::replace', 'core::mem::take', 'core::mem::swap')
def m_mem(an, st, fr, key, targs, args, span):
    p = place(args[0])
    old = an.read(st, p.a[0], p.a[1])
    if key.endswith('swap'):
        q = place(args[1])
        o2 = an.read(st, q.a[0], q.a[1])
        an.write(st, p.a[0], p.a[1], o2, span, fr)
        an.write(st, q.a[0], q.a[1], old, span, fr)
        return ret(st, UNIT)
    if key.endswith('take'):
        new = default_value(an, targs[0])
        if new is None:
            new = call('core::default::Default::default<' + tystr(targs[0]) + '>')
    else:
        new = args[1]
    an.write(st, p.a[0], p.a[1], new, span, fr)
    return ret(st, old)


# ---------------------------------------------------------------- comparison
def eqv(an, a, b):
    """structural equality of two values"""
    if a is b:
        return TRUE
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        return conj(*[eqv(an, x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == 'tuple' and b.op == 'tuple' and len(a.a) == len(b.a):
        return conj(*[eqv(an, x, y) for x, y in zip(a.a, b.a)])
    for x, y in ((a, b), (b, a)):
        if x.op == 'adt' and y.op != 'adt':
            d = an.adt_paths.get(x.a[0])
            enum = x.a[0] in (OPTION, RESULT) or (d is not None and d['kind'] == 'enum')
            cs = []
            if enum:
                dd = mk('discr', y)
                dv = INT(x.a[1]) if d is None else INT(int(d['variants'][x.a[1]]['discr']))
                if x.a[0] in (OPTION, RESULT):
                    an.dom.setdefault(dd, frozenset((0, 1)))
                elif d is not None:
                    an.dom.setdefault(dd, frozenset(int(z['discr']) for z in d['variants']))
                cs.append(eqraw(dd, dv))
            for i, f in enumerate(x.a[2:]):
                cs.append(eqv(an, f, field(y, x.a[1], i)))
            return conj(*cs)
    if a.op == 'array' and b.op == 'array':
        if len(a.a) != len(b.a):
            return FALSE
        return conj(*[eqv(an, x, y) for x, y in zip(a.a, b.a)])
    return eqraw(a, b)


@model(P + 'PartialEq::eq', P + 'PartialEq::ne')
def m_eq(an, st, fr, key, targs, args, span):
    a, b = fz(an, st, val(an, st, args[0])), fz(an, st, val(an, st, args[1]))
    e = eqv(an, a, b)
    return ret(st, e if key.endswith('::eq') else neg(e))


@model(P + 'Ord::cmp')
def m_cmp(an, st, fr, key, targs, args, span):
    a, b = fz(an, st, args[0]), fz(an, st, args[1])
    return ret(st, mk('cmp', a, b))


@model(P + 'PartialOrd::lt', P + 'PartialOrd::le', P + 'PartialOrd::gt', P + 'PartialOrd::ge')
def m_ord(an, st, fr, key, targs, args, span):
    a, b = fz(an, st, args[0]), fz(an, st, args[1])
    k = key[-2:]
    return ret(st, {'lt': lambda: lt(a, b), 'gt': lambda: lt(b, a), 'le': lambda: neg(lt(b, a)),
                    'ge': lambda: neg(lt(a, b))}[k]())


@model('core::cmp::Ordering::is_eq', 'core::cmp::Ordering::is_ne', 'core::cmp::Ordering::is_lt',
       'core::cmp::Ordering::is_gt', 'core::cmp::Ordering::is_le', 'core::cmp::Ordering::is_ge')
def m_ordering(an, st, fr, key, targs, args, span):
    c = an.deref(st, args[0])
    if c.op != 'cmp':
        return None
    a, b = c.a
    k = key[-2:]
    return ret(st, {'eq': lambda: eqraw(a, b), 'ne': lambda: neg(eqraw(a, b)), 'lt': lambda: lt(a, b),
                    'gt': lambda: lt(b, a), 'le': lambda: neg(lt(b, a)), 'ge': lambda: neg(lt(a, b))}[k]())


@model(P + 'Ord::max', P + 'Ord::min', P + 'max', P + 'min')
def m_minmax(an, st, fr, key, targs, args, span):
    a, b = fz(an, st, args[0]), fz(an, st, args[1])
    k = key[-3:]
    if a is b:
        return ret(st, a)
    if a.op == 'int' and b.op == 'int':
        return ret(st, INT((max if k == 'max' else min)(a.a[0], b.a[0])))
    if a.op == 'int' or (b.op != 'int' and b.n < a.n):
        a, b = b, a
    return ret(st, mk(k, a, b))


# ---------------------------------------------------------------- numbers
def num(name):
    def d(f):
        MODELS['core::num::' + name] = f
        MODELS['core::num::uint::' + name] = f
        return f
    return d


@num('pow')
def m_pow(an, st, fr, key, targs, args, span):
    return ret(st, power(fz(an, st, args[0]), fz(an, st, args[1])))


@num('saturating_sub')
def m_ssub(an, st, fr, key, targs, args, span):
    a, b = fz(an, st, args[0]), fz(an, st, args[1])
    if a.op == 'int' and b.op == 'int':
        return ret(st, INT(max(0, a.a[0] - b.a[0])))
    if is_int(b, 0):
        return ret(st, a)
    return ret(st, mk('ssub', a, b))


def m_wrap(an, st, fr, key, targs, args, span):
    op = {'wrapping_add': 'Add', 'wrapping_sub': 'Sub', 'wrapping_mul': 'Mul', 'rem_euclid': 'Rem',
          'div_euclid': 'Div'}[key.rsplit('::', 1)[1]]
    return ret(st, binop(op, fz(an, st, args[0]), fz(an, st, args[1])))


for _n in ('rem_euclid', 'div_euclid'):
    num(_n)(m_wrap)


@num('is_multiple_of')
def m_multiple(an, st, fr, key, targs, args, span):
    a, b = fz(an, st, args[0]), fz(an, st, args[1])
    if b.op == 'pow' and is_int(b.a[0]) and b.a[0].a[0] > 0:
        return ret(st, eqi(binop('Rem', a, b), 0))
    out = []
    for s, z in an.fork(st, eqi(b, 0)):
        out.append(('ok', s, eqi(a if z else binop('Rem', a, b), 0)))
    return out


@num('div_ceil')
def m_divceil(an, st, fr, key, targs, args, span):
    a, b = fz(an, st, args[0]), fz(an, st, args[1])
    if is_int(b, 2):
        return ret(st, mk('ceil2', a))
    return None


def m_checked(an, st, fr, key, targs, args, span):
    """checked_<op>: None exactly on overflow"""
    op = {'checked_add': 'Add', 'checked_sub': 'Sub', 'checked_mul': 'Mul', 'checked_pow': 'Pow'}.get(
        key.rsplit('::', 1)[1])
    a, b = fz(an, st, args[0]), fz(an, st, args[1])
    r = power(a, b) if op == 'Pow' else binop(op, a, b)
    o = lt(a, b) if op == 'Sub' else mk('overflow', op, a, b)
    out = []
    for s, x in an.fork(st, o):
        out.append(('ok', s, NONE if x else some(r)))
    return out


for _n in ('checked_add', 'checked_sub', 'checked_mul', 'checked_pow'):
    num(_n)(m_checked)
    for _u in SMALL:
        MODELS['amplify_num::smallint::' + _u + '::' + _n] = m_checked


@model(*['core::ops::arith::' + x for x in ('Add::add', 'Sub::sub', 'Mul::mul', 'Div::div', 'Rem::rem')])
def m_arith(an, st, fr, key, targs, args, span):
    op = key.split('::')[-2]
    return ret(st, binop(op, fz(an, st, args[0]), fz(an, st, args[1])))


@model(*['core::ops::arith::' + x for x in ('AddAssign::add_assign', 'SubAssign::sub_assign',
                                            'MulAssign::mul_assign', 'DivAssign::div_assign')])
def m_aassign(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    op = key.split('::')[-2][:3]
    x = an.read(st, p.a[0], p.a[1])
    an.write(st, p.a[0], p.a[1], binop(op, fz(an, st, x), fz(an, st, args[1])), span, fr)
    return ret(st, UNIT)


def m_small_with(an, st, fr, key, targs, args, span):
    n = SMALL[key.split('::')[-2]]
    x = fz(an, st, args[0])
    u = upper(x)
    if u is not None and u < (1 << n) or x.op == 'el' and x.a[0].op == 'range' and is_int(x.a[0].a[1]) and x.a[0].a[1].a[0] <= (1 << n):
        return ret(st, x)
    out = []
    for s, b in an.fork(st, mk('fits', x, n)):
        out.append(('ok', s, x) if b else ('panic', s, ('out of range', (x,))))
    return out


for _u in SMALL:
    MODELS['amplify_num::smallint::' + _u + '::with'] = m_small_with


# ---------------------------------------------------------------- conversions
def tyname(t):
    return tystr(t)


def is_num(t):
    return t['k'] in ('num', 'prim') or t['k'] == 'adt' and strip_generics(t['d'][1]) in NUMNEW


def bits(t):
    if t['k'] in ('num', 'prim'):
        return UMAX.get(t['n'])
    return SMALL.get(strip_generics(t['d'][1]).rsplit('::', 1)[1])


def convert(an, st, fr, src, dst, x, span):
    """dst::from(x: src)"""
    if tystr(src) == tystr(dst):
        return ret(st, x)
    if is_num(src) and is_num(dst) and bits(src) and bits(dst) and bits(src) <= bits(dst):
        return ret(st, x)
    if dst['k'] == 'adt' and strip_generics(dst['d'][1]) == OPTION and dst['a'] and tystr(dst['a'][0]) == tystr(src):
        return ret(st, some(x))
    h = an.trait_item_hash('core::convert::From::from')
    if h:
        f = an.find_impl(h, [dst, src])
        if f:
            imp, it, env = f
            fn = an.p.fns.get(it['d'][0])
            if fn is not None and 'body' in fn and not an.is_opaque(fn, ''):
                return an.inline(st, fr, fn, env, [x], span)
    h = an.trait_item_hash('core::convert::Into::into')
    if h:
        f = an.find_impl(h, [src, dst])
        if f:
            fn = an.p.fns.get(f[1]['d'][0])
            if fn is not None and 'body' in fn:
                return an.inline(st, fr, fn, f[2], [x], span)
    if x.op == 'digest' and dst['k'] == 'array':
        return ret(st, x)
    # containers of the same elements
    if {seqlike(src), seqlike(dst)} == {True}:
        return ret(st, x)
    if dst['k'] == 'adt' and strip_generics(dst['d'][1]) == 'amplify_num::bigint::u256' and is_num(src):
        return ret(st, x)
    return ret(st, call('into<' + tystr(dst) + '>', fz(an, st, x)))


def seqlike(t):
    if t['k'] == 'ref':
        return seqlike(t['t'])
    return t['k'] in ('slice',) or t['k'] == 'adt' and strip_generics(t['d'][1]) in (
        'alloc::vec::Vec', 'amplify::collection::confinement::Confined')


@model('core::convert::From::from')
def m_from(an, st, fr, key, targs, args, span):
    return convert(an, st, fr, targs[1], targs[0], args[0], span)


@model('core::convert::Into::into')
def m_into(an, st, fr, key, targs, args, span):
    return convert(an, st, fr, targs[0], targs[1], args[0], span)


@model('core::str::parse')
def m_parse(an, st, fr, key, targs, args, span):
    key = 'core::str::traits::FromStr::from_str'
    h = an.trait_item_hash(key)
    f = h and an.find_impl(h, [targs[0]])
    if f:
        fn = an.p.fns.get(f[1]['d'][0])
        if fn is not None and 'body' in fn and not an.is_opaque(fn, ''):
            return an.inline(st, fr, fn, f[2], args, span)
    return an.opaque_call(st, fr, key, targs[:1], args, span)


@model('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def m_tryfrom(an, st, fr, key, targs, args, span):
    dst, src = targs[0], targs[1]
    if key.endswith('into'):
        dst, src = src, dst
    x = args[0]
    if is_num(src) and is_num(dst):
        x = fz(an, st, x)
        u = upper(x)
        if bits(src) and bits(dst) and (bits(src) <= bits(dst) or u is not None and u < 1 << bits(dst) or bits(dst) >= 32 and below_width(x)):
            return ret(st, ok(x))
        if x.op == 'int':
            return ret(st, ok(x)) if x.a[0] < (1 << (bits(dst) or 64)) else ret(st, err(mk('intoerr', x)))
        return [('ok', s, ok(x) if b else err(mk('interr', x))) for s, b in an.fork(st, mk('fits', x, bits(dst)))]
    if dst['k'] == 'adt' and strip_generics(dst['d'][1]) == 'amplify::collection::confinement::Confined':
        return confine(an, st, x, dst)
    return None


def below_width(x):
    """the remainder by the width of a tree, whose depth has five bits"""
    while x.op == 'cast' or x.op == 'call' and len(x.a) == 2 and x.a[0].split('::')[-1].startswith(('low_u', 'as_u')):
        x = x.a[-1]
    if x.op != 'bin' or x.a[0] != 'Rem':
        return False
    w = x.a[2]
    while w.op in ('max', 'ssub', 'cast') or w.op == 'bin' and w.a[0] == 'Sub':
        w = w.a[-1] if w.op == 'cast' else w.a[1] if w.op == 'bin' else next((y for y in w.a if y.op != 'int'), w.a[0])
    return w.op == 'pow' and is_int(w.a[0], 2)


def confine(an, st, x, dst):
    fx = fz(an, st, x)
    return [('ok', s, ok(fx) if b else err(mk('confineerr', fx)))
            for s, b in an.fork(st, mk('fits', length(an, fx), tystr(dst)))]


CF = 'amplify::collection::confinement::Confined::'


@model(CF + 'try_from', CF + 'try_from_unsafe')
def m_cf_try_from(an, st, fr, key, targs, args, span):
    fx = fz(an, st, args[0])
    return [('ok', s, ok(fx) if b else err(mk('confineerr', fx)))
            for s, b in an.fork(st, mk('fits', length(an, fx), 'confined'))]


def tgt_collection(t):
    t = tystr(t)
    if 'BTreeSet' in t:
        return 'setof'
    if 'BTreeMap' in t:
        return 'mapof'
    return None


def wrapcol(kind, v):
    return v if kind is None else mk(kind, v)


@model(CF + 'try_from_iter', CF + 'from_iter_checked', CF + 'from_iter_unsafe')
def m_cf_from_iter(an, st, fr, key, targs, args, span):
    kind = tgt_collection(targs[0]) if targs else None
    out = []
    for k, s, v in collect_run(an, st, as_iter(an, st, args[0]), fr, span):
        if k != 'ok':
            out.append((k, s, v))
            continue
        v = wrapcol(kind, v)
        for s2, b in an.fork(s, mk('fits', length(an, v), 'confined')):
            if key.endswith('try_from_iter'):
                out.append(('ok', s2, ok(v) if b else err(mk('confineerr', v))))
            elif b:
                out.append(('ok', s2, v))
            else:
                out.append(('panic', s2, ('confinement', (v,))))
    return out


@model(CF + 'with')
def m_cf_with(an, st, fr, key, targs, args, span):
    return ret(st, mk('array', fz(an, st, args[0])))


@model('core::default::Default::default', CF + 'new', 'alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity',
       'alloc::collections::btree::map::BTreeMap::new', 'alloc::collections::btree::set::BTreeSet::new',
       CF + 'with_capacity')
def m_default(an, st, fr, key, targs, args, span):
    if key.endswith('Default::default'):
        v = default_value(an, targs[0])
        return None if v is None else ret(st, v)
    if 'BTree' in key or (targs and 'BTree' in tystr(targs[0]) and key.startswith(CF)):
        return ret(st, mk('emptymap' if 'Map' in key or 'BTreeMap' in tystr(targs[0]) else 'emptyset'))
    return ret(st, EMPTY)


def default_value(an, t):
    if t['k'] in ('num', 'prim'):
        return INT(0)
    if t['k'] == 'tuple':
        xs = [default_value(an, x) for x in t['a']]
        return None if None in xs else tup(*xs)
    if t['k'] == 'adt':
        p = strip_generics(t['d'][1])
        if p == 'digest::core_api::wrapper::CoreWrapper':
            return mk('hinit', tystr(t))
        if p == OPTION:
            return NONE
        if p == 'alloc::vec::Vec':
            return EMPTY
        if p in NUMNEW:
            return INT(0)
        if p.endswith('::BTreeMap'):
            return mk('emptymap')
        if p.endswith('::BTreeSet'):
            return mk('emptyset')
        if p == 'amplify::collection::confinement::Confined':
            return default_value(an, t['a'][0])
        if p == 'core::marker::PhantomData':
            return adt(p, 0)
    return None


# ---------------------------------------------------------------- bool
@model('core::bool::then_some', 'core::bool::then')
def m_then(an, st, fr, key, targs, args, span):
    out = []
    for s, b in an.fork(st, an.deref(st, args[0])):
        if not b:
            out.append(('ok', s, NONE))
        elif key.endswith('then_some'):
            out.append(('ok', s, some(args[1])))
        else:
            out.extend(callf(an, s, fr, args[1], [], span, lambda s, v: ret(s, some(v))))
    return out


@model('core::ops::bit::Not::not')
def m_not(an, st, fr, key, targs, args, span):
    if targs and tystr(targs[0]) in ('bool', '&bool'):
        return ret(st, neg(an.deref(st, args[0])))
    return None


# ---------------------------------------------------------------- Option / Result
O = OPTION + '::'
R = RESULT + '::'


@model(O + 'is_some', O + 'is_none', R + 'is_ok', R + 'is_err')
def m_is(an, st, fr, key, targs, args, span):
    v = an.deref(st, args[0])
    k = key.rsplit('::', 1)[1]
    path = OPTION if 'option' in key else RESULT
    want = {'is_some': 1, 'is_none': 0, 'is_ok': 0, 'is_err': 1}[k]
    if v.op == 'adt':
        return ret(st, TRUE if v.a[1] == want else FALSE)
    d = mk('discr', v)
    an.dom.setdefault(d, frozenset((0, 1)))
    return ret(st, eqi(d, 1) if want == 1 else neg(eqi(d, 1)))


@model(O + 'is_some_and', R + 'is_ok_and', O + 'is_none_or')
def m_is_and(an, st, fr, key, targs, args, span):
    v = an.deref(st, args[0])
    isres = 'result' in key
    out = []
    for s, i, p in cases(an, st, v, RESULT if isres else OPTION):
        good = (i == 0) if isres else (i == 1)
        if good:
            out.extend(callf(an, s, fr, args[1], [p], span, ret))
        else:
            out.append(('ok', s, TRUE if key.endswith('none_or') else FALSE))
    return out


@model(O + 'map', O + 'and_then', O + 'unwrap_or', O + 'unwrap_or_else', O + 'ok_or', O + 'ok_or_else',
       O + 'or', O + 'or_else', O + 'filter', O + 'map_or', O + 'map_or_else', O + 'unwrap_or_default',
       O + 'and', O + 'copied', O + 'cloned', O + 'unwrap', O + 'expect', O + 'unwrap_unchecked', O + 'zip',
       O + 'xor', O + 'inspect', O + 'flatten')
def m_option(an, st, fr, key, targs, args, span):
    k = key.rsplit('::', 1)[1]
    v = args[0]
    if v.op == 'ptr':
        v = an.deref(st, v)
    if k in ('copied', 'cloned'):
        if v.op == 'adt' and v.a[1] == 1:
            return ret(st, some(an.deref(st, v.a[2])))
        return ret(st, v)
    out = []
    for s, p in opt(an, st, v):
        if p is None:
            r = {'map': lambda: NONE, 'and_then': lambda: NONE, 'filter': lambda: NONE, 'and': lambda: NONE,
                 'zip': lambda: NONE, 'unwrap_or': lambda: args[1], 'or': lambda: args[1],
                 'ok_or': lambda: err(args[1]), 'map_or': lambda: args[1], 'inspect': lambda: NONE,
                 'flatten': lambda: NONE}.get(k)
            if r:
                out.append(('ok', s, r()))
            elif k in ('unwrap_or_else', 'or_else'):
                out.extend(callf(an, s, fr, args[1], [], span, ret))
            elif k == 'map_or_else':
                out.extend(callf(an, s, fr, args[1], [], span, ret))
            elif k == 'ok_or_else':
                out.extend(callf(an, s, fr, args[1], [], span, lambda s, v: ret(s, err(v))))
            elif k == 'unwrap_or_default':
                dv = default_value(an, targs[0])
                out.append(('ok', s, dv if dv is not None else call('core::default::Default::default<' + tystr(targs[0]) + '>')))
            elif k in ('unwrap', 'expect'):
                out.append(('panic', s, ('unwrap on None', (v,))))
            elif k == 'xor':
                out.append(('ok', s, args[1]))
            else:
                out.append(('ok', s, NONE))
        else:
            if k == 'map':
                out.extend(callf(an, s, fr, args[1], [p], span, lambda s, v: ret(s, some(v))))
            elif k == 'and_then':
                out.extend(callf(an, s, fr, args[1], [p], span, ret))
            elif k == 'and':
                out.append(('ok', s, args[1]))
            elif k in ('unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'unwrap', 'expect', 'unwrap_unchecked'):
                out.append(('ok', s, p))
            elif k in ('ok_or', 'ok_or_else'):
                out.append(('ok', s, ok(p)))
            elif k in ('or', 'or_else'):
                out.append(('ok', s, some(p)))
            elif k == 'filter':
                for kk, s2, b in callf(an, s, fr, args[1], [p], span, ret):
                    if kk != 'ok':
                        out.append((kk, s2, b))
                        continue
                    for s3, t in an.fork(s2, b):
                        out.append(('ok', s3, some(p) if t else NONE))
            elif k == 'map_or':
                out.extend(callf(an, s, fr, args[2], [p], span, ret))
            elif k == 'map_or_else':
                out.extend(callf(an, s, fr, args[2], [p], span, ret))
            elif k == 'inspect':
                out.extend(callf(an, s, fr, args[1], [p], span, lambda s, v, p=p: ret(s, some(p))))
            elif k == 'flatten':
                out.append(('ok', s, p))
            elif k == 'zip':
                for s2, q in opt(an, s, args[1]):
                    out.append(('ok', s2, NONE if q is None else some(tup(p, q))))
            else:
                return None
    return out


@model(O + 'get_or_insert', O + 'get_or_insert_with', O + 'insert')
def m_optput(an, st, fr, key, targs, args, span):
    k = key.rsplit('::', 1)[1]
    p = place(args[0])
    inside = mk('ptr', p.a[0], p.a[1] + (('f', 1, 0),), 1)

    def put(s, v):
        an.write(s, p.a[0], p.a[1], some(v), span, fr)
        return ret(s, inside)
    if k == 'insert':
        return put(st, args[1])
    out = []
    v = an.read(st, p.a[0], p.a[1])
    for s, i, _ in cases(an, st, v, OPTION):
        if i == 1:
            out.append(('ok', s, inside))
        elif k == 'get_or_insert':
            out.extend(put(s, args[1]))
        else:
            out.extend(callf(an, s, fr, args[1], [], span, put))
    return out


@model(O + 'as_ref', O + 'as_mut', O + 'as_deref_mut', O + 'iter', O + 'take', O + 'replace',
       R + 'as_ref', R + 'as_mut')
def m_optref(an, st, fr, key, targs, args, span):
    k = key.rsplit('::', 1)[1]
    p = args[0]
    if k == 'iter':
        return ret(st, as_iter(an, st, an.deref(st, p)))
    if p.op == 'ptr' and an.read(st, p.a[0], p.a[1]).op == 'ptr':
        p = an.read(st, p.a[0], p.a[1])
    if p.op != 'ptr':
        return ret(st, p) if k in ('as_ref',) else None
    v = an.read(st, p.a[0], p.a[1])
    if k in ('take', 'replace'):
        an.write(st, p.a[0], p.a[1], NONE if k == 'take' else some(args[1]), span, fr)
        return ret(st, v)
    if k == 'as_ref' and v.op != 'adt':
        return ret(st, fz(an, st, v))
    out = []
    path = OPTION if key.startswith(O) else RESULT
    for s, i, _ in cases(an, st, v, path):
        if path == OPTION and i == 0:
            out.append(('ok', s, NONE))
        else:
            q = mk('ptr', p.a[0], p.a[1] + (('f', i, 0),), 0 if k == 'as_ref' else 1)
            out.append(('ok', s, adt(path, i, q)))
    return out


@model(R + 'map', R + 'map_err', R + 'and_then', R + 'or_else', R + 'unwrap', R + 'expect', R + 'unwrap_or',
       R + 'unwrap_or_else', R + 'ok', R + 'err', R + 'unwrap_or_default', R + 'and', R + 'or', R + 'map_or',
       R + 'map_or_else', R + 'expect_err', R + 'unwrap_err', R + 'copied', R + 'cloned', R + 'inspect', R + 'inspect_err')
def m_result(an, st, fr, key, targs, args, span):
    k = key.rsplit('::', 1)[1]
    v = an.deref(st, args[0])
    if k in ('copied', 'cloned'):
        return ret(st, v)
    out = []
    for s, i, p in res(an, st, v):
        if i == 0:
            if k == 'map':
                out.extend(callf(an, s, fr, args[1], [p], span, lambda s, v: ret(s, ok(v))))
            elif k == 'and_then':
                out.extend(callf(an, s, fr, args[1], [p], span, ret))
            elif k in ('map_err', 'or_else', 'or'):
                out.append(('ok', s, ok(p)))
            elif k in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default'):
                out.append(('ok', s, p))
            elif k == 'ok':
                out.append(('ok', s, some(p)))
            elif k == 'err':
                out.append(('ok', s, NONE))
            elif k == 'and':
                out.append(('ok', s, args[1]))
            elif k in ('map_or', 'map_or_else'):
                out.extend(callf(an, s, fr, args[2], [p], span, ret))
            elif k in ('inspect',):
                out.extend(callf(an, s, fr, args[1], [p], span, lambda s, v, p=p: ret(s, ok(p))))
            elif k == 'inspect_err':
                out.append(('ok', s, ok(p)))
            else:
                out.append(('panic', s, ('expect_err on Ok', (v,))))
        else:
            if k == 'map_err':
                out.extend(callf(an, s, fr, args[1], [p], span, lambda s, v: ret(s, err(v))))
            elif k in ('map', 'and_then', 'and', 'inspect'):
                out.append(('ok', s, err(p)))
            elif k in ('unwrap', 'expect'):
                out.append(('panic', s, ('unwrap on Err', (v,))))
            elif k == 'unwrap_or':
                out.append(('ok', s, args[1]))
            elif k in ('unwrap_or_else', 'or_else'):
                out.extend(callf(an, s, fr, args[1], [p], span, ret))
            elif k == 'ok':
                out.append(('ok', s, NONE))
            elif k == 'err':
                out.append(('ok', s, some(p)))
            elif k == 'or':
                out.append(('ok', s, args[1]))
            elif k == 'map_or':
                out.append(('ok', s, args[1]))
            elif k == 'map_or_else':
                out.extend(callf(an, s, fr, args[1], [p], span, ret))
            elif k == 'unwrap_or_default':
                out.append(('ok', s, default_value(an, targs[0]) or call('default')))
            elif k == 'inspect_err':
                out.extend(callf(an, s, fr, args[1], [p], span, lambda s, v, p=p: ret(s, err(p))))
            else:
                out.append(('ok', s, p))
    return out


@model('core::ops::try_trait::Try::branch')
def m_branch(an, st, fr, key, targs, args, span):
    t = targs[0]
    p = strip_generics(t['d'][1]) if t['k'] == 'adt' else None
    v = an.deref(st, args[0])
    if p == RESULT:
        return [('ok', s, adt(CFLOW, 0, x) if i == 0 else adt(CFLOW, 1, err(x))) for s, i, x in res(an, st, v)]
    if p == OPTION:
        return [('ok', s, adt(CFLOW, 0, x) if x is not None else adt(CFLOW, 1, NONE)) for s, x in opt(an, st, v)]
    if p == CFLOW:
        return ret(st, v)
    return None


@model('core::ops::try_trait::Try::from_output')
def m_from_output(an, st, fr, key, targs, args, span):
    t = targs[0]
    p = strip_generics(t['d'][1]) if t['k'] == 'adt' else None
    if p == RESULT:
        return ret(st, ok(args[0]))
    if p == OPTION:
        return ret(st, some(args[0]))
    return None


@model('core::ops::try_trait::FromResidual::from_residual')
def m_residual(an, st, fr, key, targs, args, span):
    t, r = targs[0], targs[1]
    p = strip_generics(t['d'][1]) if t['k'] == 'adt' else None
    v = an.deref(st, args[0])
    if p == RESULT and v.op == 'adt' and v.a[0] == RESULT:
        dst = t['a'][1]
        src = r['a'][1] if r['k'] == 'adt' and len(r['a']) > 1 else None
        if src is None:
            return ret(st, v)
        return [(k, s, err(x) if k == 'ok' else x) for k, s, x in convert(an, st, fr, src, dst, v.a[2], span)]
    if p == OPTION:
        return ret(st, NONE)
    return ret(st, v)


# ---------------------------------------------------------------- sequences
@model('alloc::vec::Vec::len', 'core::slice::len', CF + 'len', 'core::array::len', CF + 'len_u8', CF + 'len_u16',
       CF + 'len_u32', CF + 'len_u64', 'core::str::len', 'alloc::collections::btree::map::BTreeMap::len',
       'alloc::collections::btree::set::BTreeSet::len', 'amplify::collection::Collection::len')
def m_len(an, st, fr, key, targs, args, span):
    return ret(st, length(an, fz(an, st, args[0])))


@model('alloc::vec::Vec::is_empty', 'core::slice::is_empty', CF + 'is_empty', 'core::str::is_empty',
       'alloc::collections::btree::map::BTreeMap::is_empty', 'alloc::collections::btree::set::BTreeSet::is_empty')
def m_empty(an, st, fr, key, targs, args, span):
    return ret(st, eqi(length(an, fz(an, st, args[0])), 0))


@model('alloc::vec::Vec::push', CF + 'push')
def m_push(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    v = an.read(st, p.a[0], p.a[1])
    n = append(v, mk('array', fz(an, st, args[1])))
    if key.startswith(CF):
        out = []
        for s, b in an.fork(st, mk('fits', length(an, n), 'confined')):
            if b:
                an.write(s, p.a[0], p.a[1], n, span, fr)
                out.append(('ok', s, ok(UNIT)))
            else:
                out.append(('ok', s, err(mk('confineerr', n))))
        return out
    an.write(st, p.a[0], p.a[1], n, span, fr)
    return ret(st, UNIT)


@model('alloc::vec::Vec::insert')
def m_vinsert(an, st, fr, key, targs, args, span):
    p, i = args[0], fz(an, st, args[1])
    if p.op != 'ptr':
        return None
    v = an.read(st, p.a[0], p.a[1])
    x = mk('array', fz(an, st, args[2]))
    n = append(v, x) if i is length(an, fz(an, st, v)) else append(sub_take(v, i), x, sub_skip(v, i)) if not is_int(i, 0) else append(x, v)
    an.write(st, p.a[0], p.a[1], n, span, fr)
    return ret(st, UNIT)


@model('alloc::vec::Vec::pop', 'alloc::collections::vec_deque::VecDeque::pop_front',
       'alloc::collections::vec_deque::VecDeque::pop_back')
def m_pop(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    front = key.endswith('front')
    v = an.read(st, p.a[0], p.a[1])
    if v.op == 'remain':
        if v.a[1] != front:
            return None
        out = []
        for s, j2, e in next_(an, st, v.a[0], fr, span):
            if isinstance(e, str):
                out.append(('panic', s, e))
                continue
            if e is not None:
                an.write(s, p.a[0], p.a[1], mk('remain', j2, front), span, fr)
            out.append(('ok', s, NONE if e is None else some(e)))
        return out
    v = fz(an, st, v)
    if v.op == 'append' and not front and v.a[-1].op == 'array':
        x = v.a[-1]
        an.write(st, p.a[0], p.a[1], append(*v.a[:-1], mk('array', *x.a[:-1])), span, fr)
        return ret(st, some(x.a[-1]))
    out = []
    n = length(an, v)
    for s, b in an.fork(st, eqi(n, 0)):
        if b:
            out.append(('ok', s, NONE))
            continue
        last = INT(n.a[0] - 1) if n.op == 'int' else binop('Sub', n, INT(1))
        an.write(s, p.a[0], p.a[1], sub_skip(v, INT(1)) if front else sub_take(v, last), span, fr)
        out.append(('ok', s, some(index(an, v, INT(0) if front else last))))
    return out


def gen_remain(an, g, b, lp, name):
    """a sequence whose elements a loop takes off its end or its front, one after the other"""
    if g.op == 'remain' and b.op == 'remain' and g.a[1] == b.a[1]:
        r = gen_iter(an, g.a[0], b.a[0], lp, name)
        return None if r is None else mk('remain', r, g.a[1])
    if b.op == 'take' and b.a[0] is g and b.a[1] is binop('Sub', length(an, g), INT(1)):
        return mk('remain', to_rest(an, mk('itr', rev(g), 'at', 0), lp), False)
    if b.op == 'skip' and b.a[0] is g and is_int(b.a[1], 1):
        return mk('remain', to_rest(an, mk('itr', g, 'at', 0), lp), True)
    return None


@model('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec::extend_from_slice', 'alloc::vec::Vec::append',
       CF + 'extend')
def m_extend(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    out = []
    if key.endswith('append'):
        q = args[1]
        if q.op != 'ptr':
            return None
        x = an.read(st, q.a[0], q.a[1])
        v = an.read(st, p.a[0], p.a[1])
        an.write(st, p.a[0], p.a[1], append(v, x), span, fr)
        an.write(st, q.a[0], q.a[1], EMPTY, span, fr)
        return ret(st, UNIT)
    kind = None
    t = tystr(targs[0]) if targs else ''
    if 'BTree' in t:
        kind = 'mextend'
    for k, s, x in collect_run(an, st, as_iter(an, st, args[1]), fr, span):
        if k != 'ok':
            out.append((k, s, x))
            continue
        v = an.read(s, p.a[0], p.a[1])
        x = fz(an, s, x)
        if kind is None:
            n = append(v, x)
        elif v.op in ('emptymap', 'emptyset'):
            n = mk('mapof' if v.op == 'emptymap' else 'setof', x)
        else:
            n = mk(kind, v, x)
        an.write(s, p.a[0], p.a[1], n, span, fr)
        out.append(('ok', s, UNIT if not key.startswith(CF) else ok(UNIT)))
    return out


@model('alloc::vec::Vec::clear', 'alloc::collections::btree::map::BTreeMap::clear',
       'alloc::collections::btree::set::BTreeSet::clear')
def m_clear(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    an.write(st, p.a[0], p.a[1], mk('emptymap') if 'map' in key else mk('emptyset') if 'set' in key else EMPTY, span, fr)
    return ret(st, UNIT)


@model('core::slice::first', 'core::slice::get', 'core::slice::last')
def m_first(an, st, fr, key, targs, args, span):
    v = fz(an, st, args[0])
    if key.endswith('last'):
        return None
    if key.endswith('get'):
        if targs and len(targs) > 1 and tystr(targs[1]) != 'usize':
            return None
        i = fz(an, st, args[1])
    else:
        i = INT(0)
    return [('ok', s, some(index(an, v, i)) if b else NONE) for s, b in an.fork(st, lt(i, length(an, v)))]


@model('core::slice::copy_from_slice', 'core::slice::clone_from_slice')
def m_copy_from_slice(an, st, fr, key, targs, args, span):
    p, x = args[0], fz(an, st, args[1])
    if p.op != 'ptr':
        return None
    n = length(an, fz(an, st, an.read(st, p.a[0], p.a[1])))
    if n.op != 'int':
        return None
    if x.op == 'digest':
        # the length of a digest is known from its type: a wrong one would fail at every use
        an.write(st, p.a[0], p.a[1], x, span, fr)
        return ret(st, UNIT)
    out = []
    for s, b in an.fork(st, eqi(binop('Sub', length(an, x), n), 0)):
        if b:
            an.write(s, p.a[0], p.a[1], x, span, fr)
        out.append(('ok', s, UNIT) if b else ('panic', s, 'panic'))
    return out


@model('generic_array::GenericArray::as_slice')
def m_ga_slice(an, st, fr, key, targs, args, span):
    return ret(st, args[0])


@model('core::slice::contains', 'alloc::collections::btree::set::BTreeSet::contains')
def m_contains(an, st, fr, key, targs, args, span):
    v, x = fz(an, st, args[0]), fz(an, st, args[1])
    return ret(st, has(v, x))


def has(v, x):
    if v.op in ('setof',):
        return has(v.a[0], x)
    if v.op in ('array', 'emptyset') and not v.a:
        return FALSE
    return neg(eqi(mk('contains', v, x), 0)) if False else eqi(mk('contains', v, x), 1)


@model('core::slice::concat', 'alloc::slice::concat')
def m_concat(an, st, fr, key, targs, args, span):
    v = fz(an, st, args[0])
    if v.op == 'array':
        return ret(st, append(*v.a))
    return None


@model('core::ops::index::Index::index')
def m_index(an, st, fr, key, targs, args, span):
    v, i = args[0], fz(an, st, args[1])
    if v.op == 'ptr' and tystr(targs[1]) in ('usize',):
        return ret(st, mk('ptr', v.a[0], v.a[1] + (('i', i),), 0))
    fv = fz(an, st, v)
    if tystr(targs[1]) == 'usize':
        return ret(st, index(an, fv, i))
    if i.op == 'adt' and i.a[0].endswith('RangeFull'):
        return ret(st, fv)
    if i.op == 'adt' and i.a[0].startswith('core::ops::range::Range') and i.a[0].split('::')[-1] in SLICES:
        return ret(st, SLICES[i.a[0].split('::')[-1]](fv, *i.a[2:]))
    if 'BTreeMap' in tystr(targs[0]):
        return ret(st, field(mk('mget', fv, i), 1, 0))
    return None


def sub_take(v, k):
    if v.op == 'array' and k.op == 'int':
        return mk('array', *v.a[:k.a[0]])
    return mk('take', v, k)


def sub_skip(v, k):
    if is_int(k, 0):
        return v
    if v.op == 'array' and k.op == 'int':
        return mk('array', *v.a[k.a[0]:])
    return mk('skip', v, k)


SLICES = {'RangeTo': sub_take, 'RangeFrom': sub_skip, 'RangeToInclusive': lambda v, k: sub_take(v, binop('Add', k, INT(1))),
          'Range': lambda v, a, b: sub_take(sub_skip(v, a), binop('Sub', b, a) if not is_int(a, 0) else b)}


@model('core::slice::split_at')
def m_split_at(an, st, fr, key, targs, args, span):
    v, k = fz(an, st, args[0]), fz(an, st, args[1])
    return ret(st, mk('tuple', sub_take(v, k), sub_skip(v, k)))


@model('core::ops::index::IndexMut::index_mut')
def m_indexmut(an, st, fr, key, targs, args, span):
    v, i = args[0], fz(an, st, args[1])
    if v.op == 'ptr' and tystr(targs[1]) == 'usize':
        return ret(st, mk('ptr', v.a[0], v.a[1] + (('i', i),), 1))
    return None


@model('core::slice::iter', CF + 'iter', 'alloc::collections::btree::map::BTreeMap::iter',
       'alloc::collections::btree::set::BTreeSet::iter', 'core::iter::traits::collect::IntoIterator::into_iter',
       'core::slice::iter_mut', CF + 'iter_mut', 'alloc::vec::Vec::into_iter')
def m_iter(an, st, fr, key, targs, args, span):
    J = as_iter(an, st, args[0])
    if key.endswith('IntoIterator::into_iter') and J.op in ('ifilter', 'ifmap', 'imap') and is_at(J) and has_filter(J):
        c = collect_term(an, st, J)
        if c.op == 'comp':
            J = mk('itr', c, 'at', 0)
    return ret(st, J)


@model('alloc::vec::Vec::drain')
def m_drain(an, st, fr, key, targs, args, span):
    p = args[0]
    r = args[1]
    if p.op == 'ptr' and r.op == 'adt' and r.a[0].endswith('RangeFull'):
        v = an.read(st, p.a[0], p.a[1])
        an.write(st, p.a[0], p.a[1], EMPTY, span, fr)
        return ret(st, mk('itr', fz(an, st, v), 'at', 0))
    if p.op == 'ptr' and r.op == 'adt' and r.a[0].endswith(('RangeTo', 'RangeFrom')):
        v, k = fz(an, st, an.read(st, p.a[0], p.a[1])), fz(an, st, r.a[2])
        front, back = sub_take(v, k), sub_skip(v, k)
        to = r.a[0].endswith('To')
        an.write(st, p.a[0], p.a[1], back if to else front, span, fr)
        return ret(st, mk('itr', front if to else back, 'at', 0))
    return None


@model('core::ops::range::RangeInclusive::new')
def m_rinc(an, st, fr, key, targs, args, span):
    return ret(st, adt(RANGE, 0, args[0], binop('Add', fz(an, st, args[1]), INT(1))))


@model('alloc::vec::Vec::reverse', 'core::slice::reverse')
def m_reverse(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    an.write(st, p.a[0], p.a[1], rev(fz(an, st, an.read(st, p.a[0], p.a[1]))), span, fr)
    return ret(st, UNIT)


@model('alloc::vec::Vec::retain', 'alloc::collections::btree::set::BTreeSet::retain')
def m_retain(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    v = fz(an, st, an.read(st, p.a[0], p.a[1]))
    out = []
    for k, s, x in collect_run(an, st, mk('ifilter', mk('itr', v, 'at', 0), args[1]), fr, span):
        if k == 'ok':
            an.write(s, p.a[0], p.a[1], fz(an, s, x), span, fr)
            x = UNIT
        out.append((k, s, x))
    return out


@model('alloc::slice::sort_by_key', 'core::slice::sort_unstable_by_key', 'alloc::slice::sort_by_cached_key',
       'alloc::slice::sort', 'core::slice::sort_unstable')
def m_sort(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    v = fz(an, st, an.read(st, p.a[0], p.a[1]))
    if len(args) == 1:
        an.write(st, p.a[0], p.a[1], mk('sortedby', v, v), span, fr)
        return ret(st, UNIT)
    out = []
    for k, s, x in collect_run(an, st, mk('imap', mk('itr', v, 'at', 0), args[1]), fr, span):
        if k == 'ok':
            an.write(s, p.a[0], p.a[1], mk('sortedby', v, fz(an, s, x)), span, fr)
            x = UNIT
        out.append((k, s, x))
    return out


@model('alloc::collections::btree::set::BTreeSet::pop_first', 'alloc::collections::btree::map::BTreeMap::pop_first')
def m_pop_first(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    v = fz(an, st, an.read(st, p.a[0], p.a[1]))
    out = []
    for s, b in an.fork(st, lt(INT(0), length(an, v))):
        if b:
            an.write(s, p.a[0], p.a[1], mk('skip', v, INT(1)), span, fr)
        out.append(('ok', s, some(index(an, v, INT(0))) if b else NONE))
    return out


# ---------------------------------------------------------------- maps and sets
BM = 'alloc::collections::btree::map::BTreeMap::'
BS = 'alloc::collections::btree::set::BTreeSet::'


def mget(m, k):
    if m.op == 'minsert' and m.a[1] is k:
        return some(m.a[2])
    if m.op == 'emptymap':
        return NONE
    return mk('mget', m, k)


@model(BM + 'get', BM + 'contains_key', CF + 'get')
def m_mget(an, st, fr, key, targs, args, span):
    m, k = fz(an, st, args[0]), fz(an, st, args[1])
    r = mget(m, k)
    if key.endswith('contains_key'):
        d = mk('discr', r)
        an.dom.setdefault(d, frozenset((0, 1)))
        return ret(st, an_disc(an, r))
    return ret(st, r)


def an_disc(an, r):
    if r.op == 'adt':
        return TRUE if r.a[1] == 1 else FALSE
    d = mk('discr', r)
    an.dom.setdefault(d, frozenset((0, 1)))
    return eqi(d, 1)


@model(BM + 'insert')
def m_minsert(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    m = fz(an, st, an.read(st, p.a[0], p.a[1]))
    k, v = fz(an, st, args[1]), fz(an, st, args[2])
    an.write(st, p.a[0], p.a[1], mk('minsert', m, k, v), span, fr)
    r = mget(m, k)
    if r.op != 'adt':
        an.dom.setdefault(mk('discr', r), frozenset((0, 1)))
    return ret(st, r)


@model(BS + 'insert')
def m_sinsert(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    m = fz(an, st, an.read(st, p.a[0], p.a[1]))
    k = fz(an, st, args[1])
    an.write(st, p.a[0], p.a[1], mk('sinsert', m, k), span, fr)
    return ret(st, neg(has(m, k)))


@model(BS + 'remove', BM + 'remove')
def m_sremove(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    m = fz(an, st, an.read(st, p.a[0], p.a[1]))
    k = fz(an, st, args[1])
    an.write(st, p.a[0], p.a[1], mk('sremove' if 'set' in key else 'mremove', m, k), span, fr)
    return ret(st, has(m, k) if 'set' in key else mget(m, k))


@model(BS + 'difference')
def m_difference(an, st, fr, key, targs, args, span):
    return ret(st, mk('itr', mk('setdiff', fz(an, st, args[0]), fz(an, st, args[1])), 'at', 0))


@model(BS + 'is_subset', BS + 'is_superset')
def m_subset(an, st, fr, key, targs, args, span):
    a, b = fz(an, st, args[0]), fz(an, st, args[1])
    if key.endswith('superset'):
        a, b = b, a
    return ret(st, eqi(length(an, mk('setdiff', a, b)), 0))


MENTRY = 'alloc::collections::btree::map::entry::'


@model(BM + 'entry')
def m_entry(an, st, fr, key, targs, args, span):
    p = args[0]
    e = an.p.adt_by_path(MENTRY + 'Entry')
    if p.op != 'ptr' or e is None:
        return None
    vi = {v['n']: i for i, v in enumerate(e['variants'])}
    m, k = fz(an, st, an.read(st, p.a[0], p.a[1])), fz(an, st, args[1])
    out = []
    for s, v in opt(an, st, mget(m, k)):
        out.append(('ok', s, adt(MENTRY + 'Entry', vi['Vacant' if v is None else 'Occupied'], mk('mentry', p, k))))
    return out


@model(MENTRY + 'VacantEntry::insert', MENTRY + 'VacantEntry::insert_entry', MENTRY + 'OccupiedEntry::insert')
def m_entry_insert(an, st, fr, key, targs, args, span):
    e = an.deref(st, args[0])
    if e.op != 'mentry':
        return None
    p, k = e.a
    m, v = fz(an, st, an.read(st, p.a[0], p.a[1])), fz(an, st, args[1])
    an.write(st, p.a[0], p.a[1], mk('minsert', m, k, v), span, fr)
    return ret(st, field(mget(m, k), 1, 0) if 'Occupied' in key else newcell(an, st, v))


@model(MENTRY + 'VacantEntry::key', MENTRY + 'OccupiedEntry::key', MENTRY + 'VacantEntry::into_key')
def m_entry_key(an, st, fr, key, targs, args, span):
    e = an.deref(st, args[0])
    return ret(st, e.a[1]) if e.op == 'mentry' else None


@model(MENTRY + 'OccupiedEntry::get')
def m_entry_get(an, st, fr, key, targs, args, span):
    e = an.deref(st, args[0])
    if e.op != 'mentry':
        return None
    p, k = e.a
    return ret(st, field(mget(fz(an, st, an.read(st, p.a[0], p.a[1])), k), 1, 0))


@model(BS + 'first', BS + 'last')
def m_sfirst(an, st, fr, key, targs, args, span):
    v = fz(an, st, args[0])
    return [('ok', s, some(index(an, v, INT(0)) if key.endswith('first') else mk('lastof', v)) if b else NONE)
            for s, b in an.fork(st, lt(INT(0), length(an, v)))]


@model(BM + 'into_values', BM + 'values')
def m_values(an, st, fr, key, targs, args, span):
    return ret(st, mk('itr', mk('mvalues', fz(an, st, args[0])), 'at', 0))


@model(BM + 'keys', BM + 'into_keys')
def m_keys(an, st, fr, key, targs, args, span):
    return ret(st, mk('itr', mk('mkeys', fz(an, st, args[0])), 'at', 0))


# ---------------------------------------------------------------- iterator methods
IT = 'core::iter::traits::iterator::Iterator::'


@model(IT + 'next')
def m_next(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    x = an.read(st, p.a[0], p.a[1])
    if x.op == 'ptr':
        p, x = x, an.read(st, x.a[0], x.a[1])
    if x.op not in ITEROPS:
        x = as_iter(an, st, x)
        an.write_quiet(st, p.a[0], p.a[1], x)
    x = simplify_iter(an, st, x)
    out = []
    for s, j, e in next_(an, st, x, fr, span):
        an.write_quiet(s, p.a[0], p.a[1], j)
        if isinstance(e, str):
            out.append(('panic', s, e))
        else:
            out.append(('ok', s, NONE if e is None else some(e)))
    return out


@model('core::iter::adapters::peekable::Peekable::peek', 'core::iter::adapters::peekable::Peekable::next_if',
       'core::iter::adapters::peekable::Peekable::next_if_eq')
def m_peek(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    x = an.read(st, p.a[0], p.a[1])
    if x.op == 'ptr':
        p, x = x, an.read(st, x.a[0], x.a[1])
    x = simplify_iter(an, st, x)
    if x.op != 'itr':
        return None
    out = []
    for s, j, e in next_(an, st, x, fr, span):
        if isinstance(e, str):
            return None
        if e is None or key.endswith('peek'):
            out.append(('ok', s, NONE if e is None else some(e)))
            continue

        def taken(s, c, j=j, e=e):
            r = []
            for s2, b in an.fork(s, c):
                if b:
                    an.write_quiet(s2, p.a[0], p.a[1], j)
                r.append(('ok', s2, some(e) if b else NONE))
            return r
        if key.endswith('next_if'):
            out.extend(callf(an, s, fr, args[1], [e], span, taken))
        else:
            out.extend(taken(s, eqv(an, fz(an, s, e), fz(an, s, args[1]))))
    return out


@model(IT + 'map', IT + 'filter', IT + 'filter_map', IT + 'enumerate', IT + 'zip', IT + 'rev', IT + 'take',
       IT + 'skip', IT + 'chain', IT + 'copied', IT + 'cloned', IT + 'by_ref', IT + 'take_while', IT + 'fuse',
       IT + 'peekable', IT + 'into_iter', IT + 'flat_map')
def m_adapter(an, st, fr, key, targs, args, span):
    k = key.rsplit('::', 1)[1]
    if k == 'flat_map':
        # an option has at most one element
        u = targs[1] if len(targs) > 1 else None
        if not (isinstance(u, dict) and u.get('k') == 'adt' and strip_generics(u['d'][1]) == OPTION):
            return None
        k = 'filter_map'
    if k == 'by_ref':
        p = args[0]
        if p.op != 'ptr':
            return None
        x = an.read(st, p.a[0], p.a[1])
        if x.op == 'ptr':
            return ret(st, x)
        if x.op not in ITEROPS:
            an.write_quiet(st, p.a[0], p.a[1], as_iter(an, st, x))
        return ret(st, p)
    J = as_iter(an, st, args[0])
    if k in ('copied', 'cloned', 'fuse', 'into_iter'):
        return ret(st, J)
    if k == 'peekable':
        return ret(st, J) if J.op == 'itr' else None
    if k == 'map':
        return ret(st, mk('imap', J, hold(an, st, args[1])))
    if k == 'filter':
        return ret(st, mk('ifilter', J, hold(an, st, args[1])))
    if k == 'filter_map':
        return ret(st, mk('ifmap', J, hold(an, st, args[1])))
    if k == 'take_while':
        return ret(st, mk('itw', J, hold(an, st, args[1])))
    if k == 'enumerate':
        J = simplify_iter(an, st, mk('ienum', J))
        if J.op == 'ienum':
            J = mk('itr', mk('enumerated', collect_term(an, st, J.a[0])), 'at', 0)
        return ret(st, J)
    if k == 'zip':
        K = as_iter(an, st, args[1])
        for i, (x, y) in enumerate(((J, K), (K, J))):
            # an unbounded range counts the elements of the other side
            if x.op == 'itr' and x.a[1:] == ('at', 0) and x.a[0].op == 'adt' and x.a[0].a[0] == RANGEFROM and is_int(x.a[0].a[2]) \
                    and y.op == 'itr' and y.a[1:] == ('at', 0) and len(targs) > i:
                t = targs[i]['a'][0] if isinstance(targs[i], dict) and targs[i].get('a') else None
                t = tystr(t) if t is not None else None
                if t in UMAX or t in UNSIGNED:
                    return ret(st, mk('itr', mk('counted', y.a[0], x.a[0].a[2], t, int(i == 0)), 'at', 0))
        return ret(st, mk('izip', J, K))
    if k == 'rev':
        return ret(st, mk('itr', rev(collect_term(an, st, J)), 'at', 0))
    if k == 'take':
        return ret(st, mk('itake', J, fz(an, st, args[1])))
    if k == 'skip':
        n = fz(an, st, args[1])
        if J.op == 'itr' and J.a[1:] == ('at', 0) and J.a[0].op == 'range' and is_int(J.a[0].a[0], 0) and n.op != 'len':
            return ret(st, mk('itr', mk('range', n, J.a[0].a[1]), 'at', 0))
        return ret(st, mk('iskip', J, n))
    if k == 'chain':
        return ret(st, mk('ichain', J, as_iter(an, st, args[1])))
    return None


def hold(an, st, f):
    """a closure with captured state lives in a cell of its own"""
    if f.op == 'closure' and len(f.a) > 2:
        return newcell(an, st, f)
    return f


@model('core::iter::traits::exact_size::ExactSizeIterator::len', IT + 'count')
def m_itlen(an, st, fr, key, targs, args, span):
    v = args[0]
    if v.op == 'ptr':
        v = an.read(st, v.a[0], v.a[1])
    J = as_iter(an, st, v)
    base = J
    while base.op == 'imap':
        base = base.a[0]
    if base.op == 'itr' and base.a[1] == 'at':
        n = length(an, base.a[0])
        return ret(st, binop('Sub', n, INT(base.a[2])))
    return ret(st, length(an, collect_term(an, st, J)))


@model(IT + 'collect', 'core::iter::traits::collect::FromIterator::from_iter')
def m_collect(an, st, fr, key, targs, args, span):
    J = as_iter(an, st, args[0])
    t = targs[1] if key.endswith('collect') and len(targs) > 1 else targs[0]
    if t['k'] == 'adt' and strip_generics(t['d'][1]) in (RESULT, OPTION):
        return collect_try(an, st, J, t, fr, span)
    kind = tgt_collection(t)
    return [(k, s, wrapcol(kind, v) if k == 'ok' else v) for k, s, v in collect_run(an, st, J, fr, span)]


def collect_try(an, st, J, t, fr, span):
    isres = strip_generics(t['d'][1]) == RESULT
    kind = tgt_collection(t['a'][0])
    acc = newcell(an, st, EMPTY)

    def step(s, e):
        out = []
        if isres:
            for s2, i, p in res(an, s, an.deref(s, e)):
                if i == 0:
                    s2.cells[acc.a[0]] = append(s2.cells[acc.a[0]], mk('array', fz(an, s2, p)))
                    out.append(('next', s2, None))
                else:
                    out.append(('break', s2, err(p)))
        else:
            for s2, p in opt(an, s, an.deref(s, e)):
                if p is not None:
                    s2.cells[acc.a[0]] = append(s2.cells[acc.a[0]], mk('array', fz(an, s2, p)))
                    out.append(('next', s2, None))
                else:
                    out.append(('break', s2, NONE))
        return out
    outs, lp = an.iterate(st, J, step, 'collect', fr, span)
    r = []
    for k, s, v in outs:
        if k == 'exhaust':
            x = wrapcol(kind, s.cells[acc.a[0]])
            r.append(('ok', s, ok(x) if isres else some(x)))
        elif k == 'break':
            r.append(('ok', s, v))
        else:
            r.append((k, s, v))
    return r


@model(IT + 'all', IT + 'any', IT + 'find', IT + 'position', IT + 'find_map', IT + 'for_each', IT + 'try_for_each')
def m_quant(an, st, fr, key, targs, args, span):
    k = key.rsplit('::', 1)[1]
    J = args[0]
    if J.op == 'ptr':
        x = an.read(st, J.a[0], J.a[1])
        if x.op == 'ptr':
            J = x
        elif x.op not in ITEROPS:
            an.write_quiet(st, J.a[0], J.a[1], as_iter(an, st, x))
        if an.read(st, J.a[0], J.a[1]).op in ITEROPS:
            an.write_quiet(st, J.a[0], J.a[1], simplify_iter(an, st, an.read(st, J.a[0], J.a[1])))
        # the rest of a partially consumed iterator is not tracked further
        Jv = an.read(st, J.a[0], J.a[1])
        an.write_quiet(st, J.a[0], J.a[1], mk('itr', mk('after', collect_term(an, st, Jv)), 'at', 0))
        J = Jv
    else:
        J = simplify_iter(an, st, as_iter(an, st, J))
    f = hold(an, st, args[1])
    const = singleton(an, st, J)

    def step(s, e):
        out = []
        for kind, s2, v in callf(an, s, fr, f, [e], span, ret):
            if kind != 'ok':
                out.append(('panic', s2, v))
            elif k == 'for_each':
                out.append(('next', s2, None))
            elif k == 'try_for_each':
                v = an.deref(s2, v)
                rt = rty(targs)
                for s3, i, p in cases(an, s2, v, rt):
                    good = (i == 0) if rt in (RESULT, CFLOW) else (i == 1)
                    out.append(('next', s3, None) if good else
                               ('break', s3, adt(rt, i, p) if p is not None else adt(rt, i)))
            elif k == 'find_map':
                for s3, p in opt(an, s2, an.deref(s2, v)):
                    out.append(('next', s3, None) if p is None else ('break', s3, some(p)))
            else:
                stop = {'all': 0, 'any': 1, 'find': 1, 'position': 1}[k]
                for s3, b in an.fork(s2, an.deref(s2, v)):
                    if b == stop:
                        r = {'all': lambda: FALSE, 'any': lambda: TRUE, 'find': lambda: some(e),
                             'position': lambda: some(mk('posof', e))}[k]()
                        out.append(('break', s3, r))
                    else:
                        out.append(('next', s3, None))
        return out
    if const is not None:
        return unrolled(an, st, const, step, k, targs, fr)
    before = st.copy()
    outs, lp = an.iterate(st, J, step, k, fr, span)
    x = membership(an, J, lp, outs, before) if k in ('any', 'all') else None
    if x is not None:
        return ret(before, x if k == 'any' else neg(x))
    r = []
    for kind, s, v in outs:
        if kind == 'exhaust':
            r.append(('ok', s, endval(k, targs)))
        elif kind == 'break':
            r.append(('ok', s, v))
        else:
            r.append((kind, s, v))
    return r


def membership(an, J, lp, outs, before):
    """any(|e| e == x), !all(|e| e != x) over a sequence, as membership of x"""
    if not (J.op == 'itr' and J.a[1] == 'at' and J.a[2] == 0) or len(lp.body) != 1 or len(outs) != 2 or J.a[0].op in ('comp', 'array'):
        return None
    src = J.a[0]
    cs = [(t, f) for t, f in lp.body[0].conds if t.op != 'more']
    el = mk('el', src, 0, lp.id)
    if len(cs) != 1 or cs[0][1] != ('eq', 0) or cs[0][0].op != 'eq' or lp.body[0].updates or lp.body[0].events:
        return None
    a, b = cs[0][0].a[:2]
    x = b if a is el else a if b is el else None
    if x is None or contains(x, lambda y: y.op in ('el', 'lv') and lp.id in y.a):
        return None
    return has(src, x)


def rty(targs):
    for t in reversed(targs):
        if t['k'] == 'adt' and strip_generics(t['d'][1]) in (RESULT, OPTION, CFLOW):
            return strip_generics(t['d'][1])
    return RESULT


def endval(k, targs):
    if k == 'try_for_each':
        rt = rty(targs)
        return some(UNIT) if rt == OPTION else adt(rt, 0, UNIT)
    return {'all': TRUE, 'any': FALSE, 'find': NONE, 'position': NONE, 'find_map': NONE, 'for_each': UNIT}[k]


def singleton(an, st, J):
    if J.op == 'itr' and J.a[1] == 'at' and J.a[2] == 0 and J.a[0].op == 'array' and len(J.a[0].a) <= 1:
        return list(J.a[0].a)
    return None


def unrolled(an, st, elems, step, k, targs, fr):
    live, out = [st], []
    for e in elems:
        nxt = []
        for s in live:
            for ctl, s2, v in step(s, e):
                if ctl == 'next':
                    nxt.append(s2)
                elif ctl == 'break':
                    out.append(('ok', s2, v))
                else:
                    out.append((ctl, s2, v))
        live = nxt
    for s in live:
        out.append(('ok', s, endval(k, targs)))
    return out


@model(IT + 'fold', IT + 'try_fold')
def m_fold(an, st, fr, key, targs, args, span):
    J = simplify_iter(an, st, as_iter(an, st, args[0]))
    if J.op == 'ptr':
        J = an.read(st, J.a[0], J.a[1])
    acc = newcell(an, st, args[1])
    f = hold(an, st, args[2])
    tr = key.endswith('try_fold')
    rt = rty(targs) if tr else None

    def step(s, e):
        out = []
        for kind, s2, v in callf(an, s, fr, f, [s.cells[acc.a[0]], e], span, ret):
            if kind != 'ok':
                out.append(('panic', s2, v))
                continue
            for s3, i, p in cases(an, s2, an.deref(s2, v), rt) if tr else [(s2, None, v)]:
                if not tr or (i == 0 if rt in (RESULT, CFLOW) else i == 1):
                    s3.cells[acc.a[0]] = p
                    out.append(('next', s3, None))
                else:
                    out.append(('break', s3, adt(rt, i, p) if p is not None else adt(rt, i)))
        return out
    outs, lp = an.iterate(st, J, step, 'fold', fr, span)
    r = []
    for k, s, v in outs:
        if k == 'exhaust':
            v = s.cells[acc.a[0]]
            r.append(('ok', s, v if not tr else some(v) if rt == OPTION else adt(rt, 0, v)))
        else:
            r.append(('ok' if k == 'break' else k, s, v))
    return r


@model(IT + 'sum')
def m_sum(an, st, fr, key, targs, args, span):
    return [(k, s, mk('sum', v) if k == 'ok' else v)
            for k, s, v in collect_run(an, st, as_iter(an, st, args[0]), fr, span)]


@model(IT + 'max', IT + 'min')
def m_extreme(an, st, fr, key, targs, args, span):
    J = simplify_iter(an, st, as_iter(an, st, args[0]))
    out = []
    for k, s, v in collect_run(an, st, J, fr, span):
        if k != 'ok':
            out.append((k, s, v))
            continue
        v = fz(an, s, v)
        for s2, b in an.fork(s, eqi(length(an, v), 0)):
            out.append(('ok', s2, NONE if b else some(mk('extreme', v, key[-3:]))))
    return out


@model(IT + 'partition')
def m_partition(an, st, fr, key, targs, args, span):
    J = simplify_iter(an, st, as_iter(an, st, args[0]))
    kind = tgt_collection(targs[1]) if len(targs) > 1 else None
    f = hold(an, st, args[1])
    yes, no = newcell(an, st, EMPTY), newcell(an, st, EMPTY)

    def step(s, e):
        out = []
        for k, s2, v in callf(an, s, fr, f, [newcell(an, s, e)], span, ret):
            if k != 'ok':
                out.append(('panic', s2, v))
                continue
            for s3, b in an.fork(s2, an.deref(s2, v)):
                c = (yes if b else no).a[0]
                s3.cells[c] = append(s3.cells[c], mk('array', fz(an, s3, e)))
                out.append(('next', s3, None))
        return out
    outs, lp = an.iterate(st, J, step, 'partition', fr, span)
    return [('ok', s, tup(*[wrapcol(kind, fz(an, s, s.cells[c.a[0]])) for c in (yes, no)])) if k == 'exhaust' else (k, s, v) for k, s, v in outs]


@model(IT + 'last', IT + 'nth', IT + 'flatten')
def m_decline(an, st, fr, key, targs, args, span):
    return None


# ---------------------------------------------------------------- function values
@model('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def m_fncall(an, st, fr, key, targs, args, span):
    a = an.deref(st, args[1])
    if a.op != 'tuple':
        return None
    f = args[0]
    return (an.call_closure_mut(st, fr, f, list(a.a), span) if f.op == 'ptr' else
            an.call_value(st, fr, f, list(a.a), span))


# ---------------------------------------------------------------- bytes
@model('amplify::traits::wrapper::Wrapper::into_inner', 'amplify::traits::wrapper::Wrapper::as_inner',
       'amplify::traits::wrapper::Wrapper::to_inner', 'amplify::traits::wrapper::Wrapper::from_inner')
def m_wrapper(an, st, fr, key, targs, args, span):
    return None


# ---------------------------------------------------------------- hashing
# A hasher is hinit(alg) or absorb(hasher, data); consecutive data are concatenated.
DG = 'digest::digest::Digest::'


def algo(targs):
    return tystr(targs[0]) if targs else '?'


def hinit(alg):
    return mk('hinit', alg)


def absorb(h, *xs):
    """h after hashing the byte strings xs one after another"""
    if h.op == 'absorb':
        xs = h.a[1:] + xs
        h = h.a[0]
    flat = []
    for x in xs:
        flat.extend(x.a if x.op == 'append' else [x])
    out = []
    for x in flat:
        if x.op in ('array', 'str') and not (x.a and (x.op == 'array' or x.a[0])):
            continue
        if out and out[-1].op == 'array' and x.op == 'array':
            out[-1] = mk('array', *(out[-1].a + x.a))
        else:
            out.append(x)
    return mk('absorb', h, *out) if out else h


def digest(h):
    return mk('digest', h)


@model(DG + 'new', DG + 'new_with_prefix')
def m_hnew(an, st, fr, key, targs, args, span):
    h = hinit(algo(targs))
    return ret(st, absorb(h, fz(an, st, args[0])) if args else h)


@model(DG + 'update', DG + 'chain_update', 'digest::Update::update', 'digest::Update::chain')
def m_hupdate(an, st, fr, key, targs, args, span):
    d = fz(an, st, args[1])
    if key.endswith('::update'):
        p = args[0]
        if p.op != 'ptr':
            return None
        an.write(st, p.a[0], p.a[1], absorb(an.read(st, p.a[0], p.a[1]), d), span, fr)
        return ret(st, UNIT)
    return ret(st, absorb(fz(an, st, args[0]), d))


@model(DG + 'finalize', 'digest::FixedOutput::finalize_fixed', DG + 'finalize_reset')
def m_hfin(an, st, fr, key, targs, args, span):
    if key.endswith('reset'):
        p = args[0]
        if p.op != 'ptr':
            return None
        v = an.read(st, p.a[0], p.a[1])
        an.write(st, p.a[0], p.a[1], hinit(algo(targs)), span, fr)
        return ret(st, digest(v))
    return ret(st, digest(fz(an, st, args[0])))


@model(DG + 'digest')
def m_hdigest(an, st, fr, key, targs, args, span):
    return ret(st, digest(absorb(hinit(algo(targs)), fz(an, st, args[0]))))


# ---------------------------------------------------------------- strict encoding into a writer
SW = 'strict_encoding::writer::StreamWriter::'


@model(SW + 'new')
def m_swnew(an, st, fr, key, targs, args, span):
    mx = targs[-1]
    return ret(st, mk('swriter', args[0], an.const_ty(mx)))


@model('strict_encoding::traits::StrictEncode::strict_write')
def m_swrite(an, st, fr, key, targs, args, span):
    w = args[1]
    v = fz(an, st, args[0])
    if w.op != 'swriter':
        return None
    p = w.a[0]
    if p.op != 'ptr':
        return None
    h = an.read(st, p.a[0], p.a[1])
    w2 = mk('writeok', v, w.a[1])
    out = []
    for s, b in an.fork(st, eqi(w2, 1)):
        # a failed write may have absorbed a part
        an.write(s, p.a[0], p.a[1], absorb(h, mk('enc', v)) if b else mk('partial', h, v), span, fr)
        out.append(('ok', s, ok(UNIT) if b else err(mk('ioerr', v))))
    return out


# ------------------------------------------------------------------ strict encoding writers
ST = 'strict_encoding::traits::'


@model(ST + 'TypedWrite::write_struct', ST + 'TypedWrite::write_tuple', ST + 'TypedWrite::write_union',
       ST + 'WriteUnion::write_struct', ST + 'WriteUnion::write_tuple', ST + 'DefineUnion::define_struct', ST + 'DefineUnion::define_tuple')
def m_write(an, st, fr, key, targs, args, span):
    """The closure writes the fields to a writer derived from this one."""
    w = call(key, *[an.freeze(st, a) for a in args[:-1]])
    return an.call_value(st, fr, args[-1], [w], span)


def m_tobytes(an, st, fr, key, targs, args, span):
    """The bytes of an integer: how many and in which order matters, so both are part of the term."""
    m = re.search(r'<impl ([ui]\d+|usize|isize)>', an.callee) or re.search(r'::(u\d+)::to_', an.callee)
    if not m:
        return None
    n = {'usize': 64, 'isize': 64}.get(m.group(1)) or int(m.group(1)[1:])
    x = fz(an, st, args[0])
    if n == 8:
        return ret(st, mk('array', x))
    return ret(st, mk('bytesof', key[-8:-6], INT(n // 8), x))


@model('alloc::vec::Vec::reserve', 'alloc::vec::Vec::reserve_exact', 'alloc::vec::Vec::shrink_to_fit', 'alloc::vec::Vec::shrink_to',
       'alloc::collections::vec_deque::VecDeque::reserve', 'alloc::collections::vec_deque::VecDeque::shrink_to_fit')
def m_reserve(an, st, fr, key, targs, args, span):
    return ret(st, UNIT)


@model('alloc::vec::Vec::split_off')
def m_splitoff(an, st, fr, key, targs, args, span):
    p, k = args[0], fz(an, st, args[1])
    if p.op != 'ptr':
        return None
    v = fz(an, st, an.read(st, p.a[0], p.a[1]))
    an.write(st, p.a[0], p.a[1], sub_take(v, k), span, fr)
    return ret(st, sub_skip(v, k))


@model('alloc::vec::Vec::dedup')
def m_dedup(an, st, fr, key, targs, args, span):
    p = args[0]
    if p.op != 'ptr':
        return None
    v = fz(an, st, an.read(st, p.a[0], p.a[1]))
    if v.op != 'sortedby' or v.a[0] is not v.a[1]:
        return None
    an.write(st, p.a[0], p.a[1], mk('setof', v.a[0]), span, fr)
    return ret(st, UNIT)


@model('core::iter::sources::successors::successors')
def m_successors(an, st, fr, key, targs, args, span):
    x0 = an.deref(st, args[0])
    if x0.op != 'adt' or x0.a[:2] != (OPTION, 1):
        return None
    # a function which is one and the same addition of one, ending on overflow
    x = mk('sample', an.seq)
    s = st.copy()
    c = newcell(an, s, x)
    outs = an.call_value(s, fr, args[1], [mk('ptr', c.a[0], (), 0)], span)
    t = targs[0]['d'][1].split('::')[-1] if targs[0]['k'] == 'adt' else tystr(targs[0])
    top = SMALL.get(t) or UMAX.get(t)
    if top is None or len(outs) != 2 or any(k != 'ok' for k, _, _ in outs):
        return None
    over = mk('overflow', 'Add', x, INT(1))
    for k, s2, v in outs:
        end = v.op == 'adt' and v.a[1] == 0
        if not (end or v is some(binop('Add', x, INT(1)))) or an.decide(s2, over) != int(end) or len(s2.events) != len(st.events):
            return None
    return ret(st, mk('itr', mk('range', fz(an, st, x0.a[2]), INT(1 << top)), 'at', 0))


@model('core::iter::sources::once::once')
def m_once(an, st, fr, key, targs, args, span):
    return ret(st, mk('itr', mk('array', val(an, st, args[0])), 'at', 0))


@model('core::iter::sources::empty::empty')
def m_iterempty(an, st, fr, key, targs, args, span):
    return ret(st, mk('itr', mk('array'), 'at', 0))


# ------------------------------------------------------------------ strict encoding readers
@model(ST + 'TypedRead::read_struct', ST + 'TypedRead::read_tuple', ST + 'ReadUnion::read_struct', ST + 'ReadUnion::read_tuple')
def m_read(an, st, fr, key, targs, args, span):
    """The closure reads the fields from this reader and its result is the result."""
    if args[0].op != 'ptr' or args[-1].op != 'closure':
        return None
    return an.call_value(st, fr, args[-1], [args[0]], span)


@model(ST + 'TypedRead::read_union')
def m_readunion(an, st, fr, key, targs, args, span):
    """Reading the tag fails, or the closure is called with the name of the variant the tag stands for."""
    if args[0].op != 'ptr' or args[-1].op != 'closure':
        return None
    out = []
    for k, s, t in an.opaque_call(st, fr, key, targs, args[:1], span):
        if k != 'ok':
            out.append((k, s, t))
            continue
        for s2, b in an.fork(s, eqi(an.discr(t), 0)):
            if b:
                out += an.call_value(s2, fr, args[-1], [field(t, 0, 0), args[0]], span)
            else:
                out.append(('ok', s2, err(field(t, 1, 0))))
    return out
