from collections import Counter
from rules import prop
from rules.seals import layout
from spec import *
from ctx import *

A = 'client_side_validation::api::'
ST = A + 'Status'
FIELDS = ['seal_issues', 'failures', 'warnings', 'info']
HOW = ('Every path of the MIR of the report operations is compared with the value of each of the four logs it must leave behind; '
       'log contents are symbolic sequences, so the result holds for reports of any length.')


def status(ix, vals):
    fs = [None] * 4
    for n, i in zip(FIELDS, ix):
        fs[i] = vals[n]
    return adt(ST, 0, *fs)


def logs(ix, t):
    return {n: field(t, 0, i) for n, i in zip(FIELDS, ix)}


@prop('C04', 'The verdict is Valid exactly when there are no failures and no seal issues',
      'All paths of Status::validity are compared with the decision table over emptiness of the failure and seal-issue logs.', floor=3)
def c04(c):
    c.rule('failures non-empty -> Invalid; otherwise seal issues non-empty -> SealIssues; otherwise Valid; warnings and info never read')
    ix = layout(c, ST, FIELDS)
    v = c.prog().adt_by_path(A + 'Validity')
    if not ix or not v:
        return c.violate('anchor:Validity', A + 'Validity', 'type not found')
    vi = {x['n']: i for i, x in enumerate(v['variants'])}

    def spec(q, self):
        l = logs(ix, self)
        if not q(eqi(mk('len', l['failures']), 0)):
            return 'ret', adt(A + 'Validity', vi['Invalid'])
        if not q(eqi(mk('len', l['seal_issues']), 0)):
            return 'ret', adt(A + 'Validity', vi['SealIssues'])
        return 'ret', adt(A + 'Validity', vi['Valid'])
    c.conform(c.find(ST + '::validity'), spec, 'verdict')
    f = c.impl_fn('core::fmt::Display', A + 'Validity', 'fmt')
    if not f:
        return
    an, outs = c.analyse(f)
    me = an.params(f)[0]
    shown = {}
    for o in outs:
        if o.kind != 'ret':
            c.violate('display', f['d'][1], f'panics on [{describe(o)}]')
            continue
        st = path_state(an, o)
        text = tuple(sorted(repr(t) for e in o.events for a in e.args for t in subterms(a) if t.op == 'str' or t.op == 'array'))
        for n, i in vi.items():
            if an.decide(st, eqi(an.discr(me), int(v['variants'][i]['discr']))) != 0:
                shown.setdefault(n, set()).add(text)
    c.ob('display', f['d'][1], f'{len(shown)} verdicts')
    for n in vi:
        for m in vi:
            if n < m and shown.get(n, set()) & shown.get(m, set()):
                c.violate('display', f['d'][1], f'{n} and {m} are displayed alike')


@prop('C05', 'Collecting validation results never loses, duplicates or misfiles an entry', HOW, floor=10)
def c05(c):
    c.rule('add_X appends its argument to log X only; += appends each of the four logs to the same log; constructors put entries only in their log')
    ix = layout(c, ST, FIELDS)
    if not ix:
        return
    empty = {n: mk('array') for n in FIELDS}

    def upd(self, name, x):
        l = logs(ix, self)
        l[name] = M.append(l[name], mk('array', x))
        return status(ix, l)

    def adder(name):
        def spec(q, self, x):
            s = upd(self, name, x)
            return 'ret', s, {0: s}
        return spec
    for m, n in [('add_seal_issue', 'seal_issues'), ('add_failure', 'failures'), ('add_warning', 'warnings'), ('add_info', 'info')]:
        c.conform(c.find(ST + '::' + m), adder(n), f'{m} appends to {n} only')

    def merge(q, self, rhs):
        a, b = logs(ix, self), logs(ix, rhs)
        return 'ret', ANY, {0: status(ix, {n: M.append(a[n], b[n]) for n in FIELDS})}
    c.conform(c.impl_fn('core::ops::arith::AddAssign', ST, 'add_assign'), merge, 'merging two reports')
    c.conform(c.find(ST + '::new'), lambda q: ('ret', status(ix, empty)), 'a new report is empty')
    c.conform(c.impl_fn('core::default::Default', ST, 'default'), lambda q: ('ret', status(ix, empty)), 'a default report is empty')
    c.conform(c.find(ST + '::from_failure'),
              lambda q, f: ('ret', status(ix, {**empty, 'failures': mk('array', f)})), 'a report of one failure')
    c.conform(c.impl_fn('core::iter::traits::collect::FromIterator', ST, 'from_iter'),
              lambda q, it: ('ret', status(ix, {**empty, 'failures': it})), 'a report of collected failures')


@prop('C06', 'Validation checks the data, every item and every seal once and reports it all',
      'The report returned by the default client_side_validate is computed as a symbolic multiset (comprehensions over the item and '
      'seal iterators) and compared with the required one; the traversal loops must end by exhaustion only.', floor=4)
def c06(c):
    c.rule('log = own consistency log ++ for every item: its consistency log, and for every seal of the item whose resolution fails: that issue in seal_issues')
    ix = layout(c, ST, FIELDS)
    fn = c.find(A + 'ClientSideValidate::client_side_validate')
    if not ix or fn is None:
        return
    CD = A + 'ClientData::'
    ncomp = [0]
    for fl in ('release', 'debug'):
        f = c.prog(fl).fns.get(fn['d'][0])
        an, outs = c.analyse(f, (), fl)
        ps = an.params(f)
        me, res = ps[0], ps[1]
        items = call(A + 'ClientSideValidate::validation_iter', me)
        nret = 0
        for o in outs:
            if o.kind != 'ret':
                c.violate('traversal', f['d'][1], f'the traversal may panic: {o.value} on [{describe(o)}]')
                continue
            nret += 1
            if o.conds:
                c.violate('traversal', f['d'][1], f'the outcome depends on [{describe(o)}]: it must always run to the end')
                continue
            el = mk('el', items, 0, ('depth', 0))
            seals = call(CD + 'single_use_seals', el)
            sl = mk('el', seals, 0, ('depth', 1))
            r = call(A + 'SealResolver::resolve_trust', ANYT, sl)
            noc = frozenset()
            for n, i in zip(FIELDS, ix):
                own = field(call(CD + 'validate_internal_consistency', me), 0, i)
                want = [((), 'all', own), (((items, noc),), 'all', field(call(CD + 'validate_internal_consistency', el), 0, i))]
                if n == 'seal_issues':
                    want.append((((items, noc), (seals, frozenset([(an.discr(r), ('eq', 1))]))), 'one', field(r, 1, 0)))
                isres = lambda x: x.op in ('carried', 'lv', 'out') or x is res
                got = canon_pieces(pieces(an, field(o.value, 0, i)))
                fix = lambda t: blank_state(t, isres)
                got = [(tuple((fix(s), frozenset((fix(a), b) for a, b in cs)) for s, cs in ctx), k, fix(t)) for ctx, k, t in got]
                ncomp[0] += len(got)
                cw, cg = Counter(want), Counter(got)
                c.ob('traversal', f['d'][1], f'{n}: {len(got)} sources of entries')
                for ctx, k, t in cw - cg:
                    c.violate('traversal:' + n, f['d'][1], f'{n} lacks the entries {show(t)[:200]}'
                              + ''.join(f' for every element of {show(s)[:120]}' for s, _ in ctx)
                              + f'; it is {show(field(o.value, 0, i))[:600]}')
                for ctx, k, t in cg - cw:
                    c.violate('traversal:' + n, f['d'][1], f'{n} contains unexpected entries {show(t)[:300]}'
                              + ''.join(f' for every element of {show(s)[:120]} where {[(show(a)[:120], b) for a, b in cs]}' for s, cs in ctx))
        if nret != 1:
            c.violate('traversal', f['d'][1], f'{nret} returning paths, 1 expected')
    c.count('entry_sources', ncomp[0], 10)
