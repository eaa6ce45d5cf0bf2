"""Comparison of the analysed outcomes of a function with a specification.

A specification is a Python function that computes the required outcome from the
parameter terms; the facts it needs it asks for with q(term), which splits the
abstract state when the analysed path has not decided them.  A path conforms
when, under every consistent refinement of its facts, its outcome is the
required one.  Everything is syntactic up to the term rewrites of terms.py and
the equalities recorded on the path: no solver is involved."""
from terms import *
from absint import Analysis, State, showcond
import models as M


class Mismatch(Exception):
    pass


class Infeasible(Exception):
    pass


ANY = object()


class Q:
    def __init__(self, an, st, pre, fresh, out=None):
        self.an, self.st, self.pre, self.fresh, self.i, self.out = an, st, pre, fresh, 0, out

    def __call__(self, t):
        d = self.an.decide(self.st, t)
        if d is not None:
            return bool(d)
        ch = [(v, s) for v in (1, 0) for s in self.an.assume(self.st.copy(), t, v)]
        if not ch:
            raise Infeasible()
        if self.i < len(self.pre):
            k = self.pre[self.i]
        else:
            k = 0
            for j in range(1, len(ch)):
                self.fresh.append(self.pre[:self.i] + [j])
            self.pre = self.pre + [0]
        self.i += 1
        v, self.st = ch[k]
        return bool(v)

    def discr(self, t):
        return self.an.discr(t)

    def is_variant(self, t, k):
        return self(eqi(self.an.discr(t), k))

    def is_ok(self, t):
        return self.is_variant(t, 0)

    def is_some(self, t):
        return self.is_variant(t, 1)

    def eq(self, a, b):
        """a == b as the analysis itself would value it"""
        return self(M.eqv(self.an, a, b))

    def verify_eq(self, a, b, key='commit_verify::embed::VerifyEq::verify_eq'):
        """custom equivalence: either operand order"""
        x, y = call(key, a, b), call(key, b, a)
        if self.an.decide(self.st, x) is None and self.an.decide(self.st, y) is not None:
            return self(y)
        return self(x)

    # ---- loops of the analysed path
    def loops_over(self, src):
        r = []
        for e in self.out.events:
            if e.kind == 'loop':
                lp = self.an.loops[e.key]
                if src in loop_sources(lp):
                    r.append(lp)
        return r

    def first_failing(self, src, pred, what='elements'):
        """The element of src on which the path left its loop, None when every element was
        visited; the loop must go on exactly for the elements satisfying pred."""
        lps = self.loops_over(src)
        if not lps:
            raise Mismatch(f'the {what} are never examined on this path')
        stop = None
        for t, f in self.out.conds:
            if t.op == 'more' and t.a[0] is src and f == ('eq', 1) and t.a[1] == 0:
                stop = mk('el', src, 0, t.a[2])
        for lp in lps:
            check_body(self.an, lp, src, pred, what)
        if stop is not None:
            if pred(self, stop):
                raise Mismatch(f'stops at one of the {what} although it satisfies the requirement')
            return stop
        return None


def loop_sources(lp):
    s = set()
    for cs in [b.conds for b in lp.body] + [c for _, c in lp.exits]:
        for t, f in cs:
            if t.op == 'more' and t.a[2] == lp.id:
                s.add(t.a[0])
    return s


def check_body(an, lp, src, pred, what):
    for b in lp.body:
        st = State()
        if not all(learn(an, st, c) for c in b.conds):
            continue
        el = mk('el', src, 0, lp.id)
        for st2, ok_, _ in explore(an, st, lambda q: pred(q, el)):
            if not ok_:
                raise Mismatch(f'the loop accepts one of the {what} without the required check: '
                               + ' & '.join(showcond(c) for c in b.conds))


def learn(an, st, c):
    t, (k, v) = c
    if t.op == 'int':
        return (t.a[0] == v) if k == 'eq' else t.a[0] not in v
    if k == 'eq':
        if t.op in BOOLOPS and v in (0, 1):
            d = an.decide(st, t)
            if d is not None:
                return d == v
        return an.learn(st, t, 'eq', v)
    return an.learn(st, t, 'ne', v)


def explore(an, st, f, out=None, limit=4000):
    """[(state, result)] of f(q) for all consistent answers."""
    work, res = [[]], []
    while work:
        pre = work.pop()
        fresh = []
        q = Q(an, st.copy(), pre, fresh, out)
        try:
            r = f(q)
            res.append((q.st, r, q))
        except Infeasible:
            pass
        work.extend(fresh)
        if len(res) > limit:
            raise Mismatch('too many cases')
    return res


def boolish(t):
    return t.op in BOOLOPS or t.op == 'int' and t.a[0] in (0, 1)


def norm_comp(t):
    return t


def same(an, st, e, a, unit_ok=True, depth=0):
    """The terms e and a denote the same value in every concrete state of st."""
    if e is a or e is ANY:
        return True
    if not isinstance(e, Term) or not isinstance(a, Term):
        if isinstance(e, tuple) and isinstance(a, tuple) and len(e) == len(a):
            return all(same(an, st, x, y, unit_ok, depth + 1) for x, y in zip(e, a))
        return e == a
    if e.op == 'any':
        return True
    if e.op == 'pred':
        return bool(e.a[0](an, st, a))
    if depth > 60:
        return False
    if boolish(e) and boolish(a):
        for s1, v in an.fork(st, e):
            for s2, w in an.fork(s1, a):
                if v != w:
                    return False
        return True
    fe, fa = st.know.get(e), st.know.get(a)
    if fe and fe[0] == 'eq' and a.op == 'int':
        return fe[1] == a.a[0]
    if fa and fa[0] == 'eq' and e.op == 'int':
        return fa[1] == e.a[0]
    if e.op == 'adt' or a.op == 'adt':
        if e.op == 'adt' and a.op == 'adt':
            if e.a[0] != a.a[0] or e.a[1] != a.a[1] or len(e.a) != len(a.a):
                return False
            if e.a[0] == RESULT and len(e.a) == 3 and unit_ok and (e.a[2] is UNIT or a.a[2] is UNIT):
                return True
            return all(same(an, st, x, y, unit_ok, depth + 1) for x, y in zip(e.a[2:], a.a[2:]))
        x, y = (e, a) if e.op == 'adt' else (a, e)
        info = an.adt_paths.get(x.a[0])
        if info and info['kind'] == 'struct':
            return all(same(an, st, f, field(y, 0, i), unit_ok, depth + 1) for i, f in enumerate(x.a[2:]))
        dv = INT(int(info['variants'][x.a[1]]['discr'])) if info else INT(x.a[1])
        d = an.decide(st, eqi(an.discr(y), dv.a[0]))
        if d != 1:
            return False
        fs = x.a[2:]
        if x.a[0] == RESULT and len(fs) == 1 and fs[0] is UNIT and unit_ok:
            return True
        return all(same(an, st, f, field(y, x.a[1], i), unit_ok, depth + 1) for i, f in enumerate(fs))
    if e.op == 'tuple' or a.op == 'tuple':
        x, y = (e, a) if e.op == 'tuple' else (a, e)
        if y.op == 'tuple' and len(x.a) != len(y.a):
            return False
        return all(same(an, st, f, field(y, 0, i), unit_ok, depth + 1) for i, f in enumerate(x.a))
    if e.op == 'with' or a.op == 'with':
        fields = set()
        for t in (e, a):
            while t.op == 'with':
                fields.add((t.a[1], t.a[2]))
                t = t.a[0]
        be, ba = e, a
        while be.op == 'with':
            be = be.a[0]
        while ba.op == 'with':
            ba = ba.a[0]
        if be is not ba:
            return False
        return all(same(an, st, field(e, *f), field(a, *f), unit_ok, depth + 1) for f in fields)
    if e.op == 'comp' and a.op == 'comp':
        return same_comp(an, st, e, a, unit_ok, depth)
    if e.op == a.op and len(e.a) == len(a.a) and all(same(an, st, x, y, unit_ok, depth + 1) for x, y in zip(e.a, a.a)):
        return True
    if e.op in ('max', 'ssub') and a.op not in ('max', 'ssub'):
        e, a = a, e
    return st is not None and a.op in ('max', 'ssub') and e.op not in ('max', 'ssub') and all(same(an, s, e, v, unit_ok, depth + 1) for s, v in cases(an, st, a))


def cases(an, st, t):
    """the values of a maximum or of a saturating difference"""
    if t.op == 'ssub':
        return [(s, INT(0) if b else binop('Sub', *t.a)) for s, b in an.fork(st, lt(*t.a))]
    if t.op == 'max':
        return [(s, t.a[1] if b else p) for s0, p in cases(an, st, t.a[0]) for s, b in an.fork(s0, lt(p, t.a[1]))]
    return [(st, t)]




def comp_paths(c):
    r = []
    for p in c.a[1]:
        conds = [(x.a[0], (x.a[1], x.a[2] if x.a[1] == 'eq' else frozenset(x.a[2]))) for x in p.a[0]]
        r.append((conds, p.a[1]))
    return r


def same_comp(an, st, e, a, unit_ok, depth):
    if e.a[2] != a.a[2] or not same(an, st, e.a[0], a.a[0], unit_ok, depth + 1):
        return False
    pe, pa = comp_paths(e), comp_paths(a)
    for xs, ys in ((pe, pa), (pa, pe)):
        for conds, v in xs:
            s = st.copy()
            if not all(learn(an, s, c) for c in conds):
                continue
            left = [s]
            for c2, v2 in ys:
                s2s, rest = split(an, left, c2)
                for s2 in s2s:
                    if not same(an, s2, v, v2, unit_ok, depth + 1):
                        return False
                left = rest
            if left and not empty_seq(v):
                return False
    return True


def empty_seq(v):
    return v.op == 'array' and not v.a


def split(an, states, conds):
    yes, no = list(states), []
    for c in conds:
        nxt = []
        for s in yes:
            y = s.copy()
            if learn(an, y, c):
                nxt.append(y)
            n = s.copy()
            t, (k, v) = c
            if k == 'eq' and t.op in BOOLOPS:
                if an.decide(n, t) != v and learn(an, n, (t, ('eq', 1 - v))):
                    no.append(n)
            elif k == 'eq':
                if learn(an, n, (t, ('ne', frozenset([v])))):
                    no.append(n)
            else:
                for x in v:
                    m = s.copy()
                    if learn(an, m, (t, ('eq', x))):
                        no.append(m)
        yes = nxt
    return yes, no


def path_state(an, out):
    st = State()
    for c in out.conds:
        if not learn(an, st, c):
            return None
    return st


def describe(out):
    return ' & '.join(showcond(c) for c in out.conds) or 'always'

ANYT = mk('any')


def pieces(an, t, ctx=()):
    """Contents of a sequence as a multiset of (enclosing iterations, kind, term)."""
    if t.op == 'append':
        return [p for x in t.a for p in pieces(an, x, ctx)]
    if t.op == 'array':
        return [(ctx, 'one', x) for x in t.a]
    if t.op == 'flat' and t.a[0].op == 'comp':
        c = t.a[0]
        return [p for conds, v in comp_paths(c) for p in pieces(an, v, ctx + ((c.a[0], c.a[2], tuple(conds)),))]
    if t.op == 'comp':
        return [(ctx + ((t.a[0], t.a[2], tuple(conds)),), 'one', v) for conds, v in comp_paths(t)]
    return [(ctx, 'all', t)]


def canon_pieces(ps):
    """Iteration variables named by nesting depth; facts about elements ordered."""
    out = []
    for ctx, kind, t in ps:
        m = {}
        cc = []
        for d, (src, lv, conds) in enumerate(ctx):
            s2 = subst(src, m)
            m[mk('el', src, 0, lv)] = mk('el', s2, 0, ('depth', d))
            cs = frozenset((subst(c, m), f) for c, f in conds if not (c.op == 'more'))
            cc.append((s2, cs))
        # substitute repeatedly: inner sources mention outer elements
        out.append((tuple(cc), kind, subst(t, m)))
    return out


def blank_state(t, pred):
    return subst(t, lambda x: ANYT if pred(x) else None)


def pred(f):
    """A requirement on a value, usable inside an expected term."""
    return mk('pred', f)
