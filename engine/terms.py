"""Hash-consed terms: the value domain of the analysis (value numbering over
uninterpreted operations with a small set of sound rewrites)."""
import sys
sys.setrecursionlimit(100000)

_table = {}


class Term:
    __slots__ = ('op', 'a', 'n', '_size')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


_count = [0]


def mk(op, *a):
    k = (op,) + tuple((('T', x.n) if isinstance(x, Term) else x) for x in a)
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        _count[0] += 1
        t.n = _count[0]
        t._size = None
        _table[k] = t
    return t


def INT(v):
    return mk('int', int(v))


TRUE, FALSE = INT(1), INT(0)
UNIT = mk('tuple')


def is_int(t, v=None):
    return t.op == 'int' and (v is None or t.a[0] == v)


OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
CFLOW = 'core::ops::control_flow::ControlFlow'
ORDERING = 'core::cmp::Ordering'
RANGE = 'core::ops::range::Range'


def adt(path, v, *fields):
    return mk('adt', path, v, *fields)


NONE = adt(OPTION, 0)


def some(x):
    return adt(OPTION, 1, x)


def ok(x):
    return adt(RESULT, 0, x)


def err(x):
    return adt(RESULT, 1, x)


def tup(*xs):
    return mk('tuple', *xs)


def field(b, v, i):
    if b.op == 'adt':
        fs = b.a[2:]
        if b.a[1] == v and i < len(fs):
            return fs[i]
        return mk('field', b, v, i)
    if b.op == 'tuple':
        if i < len(b.a):
            return b.a[i]
    if b.op == 'closure':
        if i < len(b.a) - 2:
            return b.a[2 + i]
    if b.op == 'with':
        if b.a[1] == v and b.a[2] == i:
            return b.a[3]
        return field(b.a[0], v, i)
    return mk('field', b, v, i)


def with_field(b, v, i, val):
    if b.op == 'adt':
        fs = list(b.a[2:])
        if b.a[1] == v and i < len(fs):
            fs[i] = val
            return adt(b.a[0], b.a[1], *fs)
    if b.op == 'tuple' and i < len(b.a):
        fs = list(b.a)
        fs[i] = val
        return tup(*fs)
    if b.op == 'closure' and i < len(b.a) - 2:
        fs = list(b.a)
        fs[2 + i] = val
        return mk('closure', *fs)
    # a chain of overrides ordered by field
    chain = {}
    base = b
    while base.op == 'with':
        chain.setdefault((base.a[1], base.a[2]), base.a[3])
        base = base.a[0]
    chain[(v, i)] = val
    r = base
    for (vv, ii) in sorted(chain):
        x = chain[(vv, ii)]
        if field(base, vv, ii) is not x:
            r = mk('with', r, vv, ii, x)
    return r


BOOLOPS = {'eq', 'lt', 'not', 'and', 'or'}


def neg(x):
    if x.op == 'int':
        return INT(1 - x.a[0])
    if x.op == 'not':
        return x.a[0]
    return mk('not', x)


def conj(*xs):
    out = []
    for x in xs:
        if x.op == 'and':
            out.extend(x.a)
        elif is_int(x, 0):
            return FALSE
        elif not (x.op == 'int'):
            out.append(x)
    u = []
    for x in out:
        if x not in u:
            u.append(x)
    if not u:
        return TRUE
    if len(u) == 1:
        return u[0]
    return mk('and', *u)


def disj(*xs):
    return neg(conj(*[neg(x) for x in xs]))


def lt(a, b):
    if a.op == 'int' and b.op == 'int':
        return TRUE if a.a[0] < b.a[0] else FALSE
    if a is b:
        return FALSE
    if is_int(b, 0):
        return FALSE
    if is_int(b, 1):
        return eqi(a, 0)
    if is_int(a, 0):
        return neg(eqi(b, 0))
    if a.op == 'int':
        return neg(mk('lt', b, INT(a.a[0] + 1)))
    return mk('lt', a, b)


def eqi(a, k):
    if a.op == 'int':
        return TRUE if a.a[0] == k else FALSE
    if a.op in BOOLOPS and k in (0, 1):
        return a if k == 1 else neg(a)
    return mk('eq', a, INT(k))


def eqraw(a, b):
    if a is b:
        return TRUE
    if a.op == 'int' and b.op == 'int':
        return TRUE if a.a == b.a else FALSE
    if a.op in ('str', 'bytes') and b.op == a.op:
        return TRUE if a.a == b.a else FALSE
    if a.op == 'int':
        return eqi(b, a.a[0])
    if b.op == 'int':
        return eqi(a, b.a[0])
    if b.n < a.n:
        a, b = b, a
    return mk('eq', a, b)


UMAX = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}
IMAX = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}


def cast(x, frm, to):
    if x.op == 'int':
        if to in UMAX:
            return INT(x.a[0] & ((1 << UMAX[to]) - 1))
        return x
    if frm == to:
        return x
    if frm in ('bool', 'char') and to in UMAX:
        return x
    if frm in UMAX and to in UMAX and UMAX[to] >= UMAX[frm]:
        return x
    if to in UMAX:
        u = upper(x)
        if u is not None and u < 1 << UMAX[to]:
            return x
    if to in UMAX and x.op == 'cast' and x.a[1] in UMAX and UMAX[to] <= UMAX[x.a[1]] and x.a[0] in {**UMAX, **IMAX}:
        return cast(x.a[2], x.a[0], to)
    return mk('cast', frm, to, x)


def upper(t, n=0):
    """an upper bound of an unsigned value, or None"""
    if n > 8:
        return None
    if t.op == 'int':
        return t.a[0]
    if t.op == 'min':
        us = [u for u in (upper(x, n + 1) for x in t.a) if u is not None]
        return min(us) if us else None
    if t.op in ('max',) or t.op == 'bin' and t.a[0] in ('Add', 'Mul'):
        us = [upper(x, n + 1) for x in (t.a if t.op == 'max' else t.a[1:])]
        if None in us:
            return None
        return max(us) if t.op == 'max' else us[0] + us[1] if t.a[0] == 'Add' else us[0] * us[1]
    if t.op == 'bin' and t.a[0] in ('Rem', 'Div', 'BitAnd', 'Shr'):
        us = [u for u in (upper(t.a[1], n + 1), upper(t.a[2], n + 1) if t.a[0] in ('Rem', 'BitAnd') else None) if u is not None]
        return min(us) if us else None
    if t.op == 'ssub':
        return upper(t.a[0], n + 1)
    if t.op == 'cast' and t.a[1] in UMAX:
        u = upper(t.a[2], n + 1)
        m = (1 << UMAX[t.a[1]]) - 1
        return m if u is None else min(u, m)
    if t.op == 'el' and t.a[0].op == 'range':
        return upper(t.a[0].a[1], n + 1)
    return None




COMM = {'Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor'}


def binop(op, a, b):
    if op.endswith('Unchecked'):
        op = op[:-9]
    if a.op == 'int' and b.op == 'int':
        x, y = a.a[0], b.a[0]
        try:
            r = {'Add': lambda: x + y, 'Sub': lambda: x - y if x >= y else None,
                 'Mul': lambda: x * y, 'Div': lambda: x // y, 'Rem': lambda: x % y,
                 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                 'Shl': lambda: x << y, 'Shr': lambda: x >> y}.get(op, lambda: None)()
        except ZeroDivisionError:
            r = None
        if r is not None:
            return INT(r)
    if op == 'Add' and is_int(b, 0) or op == 'Sub' and is_int(b, 0):
        return a
    if op == 'Add' and is_int(a, 0):
        return b
    if op == 'Mul' and is_int(a, 1):
        return b
    if op == 'Mul' and is_int(b, 1):
        return a
    if op == 'Shl' and is_int(a, 1):
        return power(INT(2), b)
    if op == 'BitAnd':
        # bool conjunction
        if a.op in BOOLOPS and b.op in BOOLOPS:
            return conj(a, b)
        if a.op in BOOLOPS and b.op == 'int':
            return a if b.a[0] else b
        if b.op in BOOLOPS and a.op == 'int':
            return b if a.a[0] else a
    if op == 'BitOr':
        if a.op in BOOLOPS and b.op in BOOLOPS:
            return disj(a, b)
        if a.op in BOOLOPS and b.op == 'int':
            return b if b.a[0] else a
        if b.op in BOOLOPS and a.op == 'int':
            return a if a.a[0] else b
    if op == 'Shr' and b.op == 'int':
        return binop('Div', a, INT(1 << b.a[0]))
    if op == 'Add':
        # constant folding through nested sums: (x + c1) + c2, (x - c1) + c2
        for p, q in ((a, b), (b, a)):
            if q.op == 'int':
                if p.op == 'bin' and p.a[0] == 'Add' and p.a[2].op == 'int':
                    return binop('Add', p.a[1], INT(p.a[2].a[0] + q.a[0]))
                if p.op == 'bin' and p.a[0] == 'Add' and p.a[1].op == 'int':
                    return binop('Add', p.a[2], INT(p.a[1].a[0] + q.a[0]))
                if p.op == 'bin' and p.a[0] == 'Sub' and p.a[2].op == 'int':
                    c = q.a[0] - p.a[2].a[0]
                    return binop('Add' if c >= 0 else 'Sub', p.a[1], INT(abs(c)))
        # halves: x/2 + x%2
        for p, q in ((a, b), (b, a)):
            if (p.op == 'bin' and q.op == 'bin' and p.a[0] == 'Div' and q.a[0] == 'Rem'
                    and p.a[1:] == q.a[1:] and is_int(p.a[2], 2)):
                return mk('ceil2', p.a[1])
    if op == 'Rem' and is_int(b, 2):
        pass
    if op == 'BitAnd':
        for p, q in ((a, b), (b, a)):
            if is_int(q, 1) and p.op not in BOOLOPS:
                return mk('bin', 'Rem', p, INT(2))
            # the low bits
            if q.op == 'int' and q.a[0] > 0 and q.a[0] & q.a[0] + 1 == 0:
                return mk('bin', 'Rem', p, INT(q.a[0] + 1))
            if q.op == 'bin' and q.a[0] == 'Sub' and is_int(q.a[2], 1) and q.a[1].op == 'pow' and is_int(q.a[1].a[0], 2):
                return mk('bin', 'Rem', p, q.a[1])
    if op == 'Div' and is_int(b, 2) and a.op == 'bin' and a.a[0] == 'Add':
        for p, q in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
            if is_int(q, 1):
                return mk('ceil2', p)
    if op == 'Sub':
        if a is b:
            return INT(0)
        if b.op == 'bin' and b.a[0] == 'Div' and is_int(b.a[2], 2) and b.a[1] is a:
            return mk('ceil2', a)
        if b.op == 'ceil2' and b.a[0] is a:
            return mk('bin', 'Div', a, INT(2))
        if a.op == 'bin' and a.a[0] == 'Add':
            if a.a[2] is b:
                return a.a[1]
            if a.a[1] is b:
                return a.a[2]
        if b.op == 'int' and a.op == 'bin' and a.a[0] in ('Add', 'Sub'):
            k = None
            if a.a[2].op == 'int':
                k = a.a[2].a[0] if a.a[0] == 'Add' else -a.a[2].a[0]
                c = k - b.a[0]
                return binop('Add' if c >= 0 else 'Sub', a.a[1], INT(abs(c)))
    if op == 'Div' and is_int(b, 1):
        return a
    if op in COMM:
        # constants last, otherwise by creation order
        if a.op == 'int' or (b.op != 'int' and b.n < a.n):
            a, b = b, a
    return mk('bin', op, a, b)


def power(a, b):
    if a.op == 'int' and b.op == 'int' and b.a[0] < 200:
        return INT(a.a[0] ** b.a[0])
    return mk('pow', a, b)


def call(key, *args):
    return mk('call', key, *args)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    stack = [t]
    while stack:
        x = stack.pop()
        for y in x.a:
            if isinstance(y, Term) and y not in seen:
                seen.add(y)
                yield y
                stack.append(y)
            elif isinstance(y, tuple):
                for z in walk_tuple(y):
                    if z not in seen:
                        seen.add(z)
                        yield z
                        stack.append(z)


def walk_tuple(tp):
    for z in tp:
        if isinstance(z, Term):
            yield z
        elif isinstance(z, tuple):
            yield from walk_tuple(z)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def rebuild(op, args):
    """Re-runs the smart constructors after substitution."""
    if op == 'field':
        return field(*args)
    if op == 'with':
        return with_field(*args)
    if op == 'eq':
        return eqraw(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'not':
        return neg(*args)
    if op == 'and':
        return conj(*args)
    if op == 'bin':
        return binop(*args)
    if op == 'pow':
        return power(*args)
    if op == 'cast':
        return cast(args[2], args[0], args[1])
    if op == 'carried' and args[0].op == 'carried':
        return args[0]
    return mk(op, *args)


def subst(t, m, memo=None):
    """m: dict Term -> Term (or a callable Term -> Term|None)."""
    if memo is None:
        memo = {}
    get = m if callable(m) else m.get

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = get(x)
        if r is None:
            na = tuple(go_any(y) for y in x.a)
            r = x if na == x.a else rebuild(x.op, na)
        memo[x] = r
        return r

    def go_any(y):
        if isinstance(y, Term):
            return go(y)
        if isinstance(y, tuple):
            return tuple(go_any(z) for z in y)
        return y
    return go(t)


def short(path):
    parts = path.split('::')
    return '::'.join(parts[-2:]) if len(parts) > 1 else path


def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x) for x in t) + ')'
        return str(t)
    op, a = t.op, t.a
    if depth > 14:
        return '…'
    s = lambda x: show(x, depth + 1) if isinstance(x, Term) else (
        '(' + ', '.join(show(y, depth + 1) if isinstance(y, Term) else str(y) for y in x) + ')'
        if isinstance(x, tuple) else str(x))
    if op == 'int':
        return str(a[0])
    if op == 'str':
        return repr(a[0])
    if op == 'param':
        return a[1]
    if op == 'tuple':
        return '(' + ', '.join(map(s, a)) + ')'
    if op == 'adt':
        return short(a[0]) + '@' + str(a[1]) + '{' + ', '.join(map(s, a[2:])) + '}'
    if op == 'field':
        return f'{s(a[0])}.{a[1]}:{a[2]}' if a[1] else f'{s(a[0])}.{a[2]}'
    if op == 'call':
        return short(a[0]) + '(' + ', '.join(map(s, a[1:])) + ')'
    if op == 'eq':
        return f'({s(a[0])} == {s(a[1])})'
    if op == 'lt':
        return f'({s(a[0])} < {s(a[1])})'
    if op == 'not':
        return f'!{s(a[0])}'
    if op == 'and':
        return '(' + ' & '.join(map(s, a)) + ')'
    if op == 'bin':
        return f'({s(a[1])} {a[0]} {s(a[2])})'
    if op == 'pow':
        return f'{s(a[0])}^{s(a[1])}'
    if op == 'cast':
        return f'({s(a[2])} as {a[1]})'
    return op + '[' + ', '.join(map(s, a)) + ']'
