from rules import prop
from spec import *
from ctx import *

S = 'single_use_seals::'
SUS, CSW, PW = S + 'SingleUseSeal::', S + 'ClientSideWitness::', S + 'PublishedWitness::'
HOW = ('Every path of the MIR of the verification methods (helpers and closures inlined, loops summarised) is compared with the '
       'outcome the protocol requires for the answers of the seal, client witness and published witness on that path.')


def failed(o):
    """the formatter has reported an error before all was written"""
    return o.value.op == 'adt' and o.value.a[1] == 1


def closing_spec(vi, pub, cli, detail=True):
    E = (lambda v, *x: err(adt(S + 'SealError', v, *x))) if detail else (lambda v, *x: err(ANYT))

    def spec(q, self, seals, message, one=None):
        published, client = field(self, 0, pub), field(self, 0, cli)
        inc = lambda q, el: q(call(SUS + 'is_included', el, message, self))
        bad = q.first_failing(seals, inc, 'seals') if one is None else (None if inc(q, one) else one)
        if bad is not None:
            return 'ret', E(vi['NotIncluded'], bad, call(PW + 'pub_id', published))
        r = call(CSW + 'convolve_commit', client, message)
        if not q.is_ok(r):
            return 'ret', E(vi['Client'], field(r, 1, 0))
        v = call(PW + 'verify_commitment', published, field(r, 0, 0))
        if not q.is_ok(v):
            return 'ret', E(vi['Published'], field(v, 1, 0))
        return 'ret', ok(UNIT)
    return spec


def layout(c, path, names):
    a = c.prog().adt_by_path(path)
    if a is None:
        c.violate('anchor:' + path, path, 'type not found')
        return None
    fs = [f['n'] for f in a['variants'][0]['fields']]
    try:
        return [fs.index(n) for n in names]
    except ValueError:
        c.violate('anchor:' + path, path, f'fields {names} not found among {fs}')
        return None



def variants(c, path):
    a = c.prog().adt_by_path(path)
    if a is None:
        c.violate('anchor:' + path, path, 'type not found')
        return {}
    return {v['n']: i for i, v in enumerate(a['variants'])}


def closing(c, detail):
    ix = layout(c, S + 'SealWitness', ['published', 'client'])
    vi = variants(c, S + 'SealError')
    if not ix or set(vi) != {'NotIncluded', 'Published', 'Client'}:
        return c.violate('anchor:SealError', S + 'SealError', f'variants are {sorted(vi)}')
    spec = closing_spec(vi, *ix, detail)
    c.conform(c.find(S + 'SealWitness::verify_seals_closing'), spec, 'closing of many seals')
    c.conform(c.find(S + 'SealWitness::verify_seal_closing'),
              lambda q, self, seal, message: spec(q, self, None, message, seal), 'closing of one seal')
    return vi


@prop('C01', 'A seal closing verifies only when every seal is included and committed', HOW, floor=8)
def c01(c):
    c.rule('Ok exactly when every seal is_included(message, self), the client witness maps the message to Ok(p) and the published '
           'witness verifies that very p; every other path is an error')
    closing(c, False)


@prop('C02', 'A failed seal closing names the failing seal or witness and carries its error',
      HOW + ' The renderings of the error (source, Display, Debug) are compared per variant.', floor=12)
def c02(c):
    c.rule('NotIncluded(that seal, publication id) for the first seal not included; Client(e)/Published(e) carry exactly the error returned')
    c.rule('source() and Display expose the carried error; Display of NotIncluded shows the seal and the publication; Debug names the variant')
    vi = closing(c, True)
    if not vi:
        return
    E = S + 'SealError'
    fld = {'Published': 0, 'Client': 0}

    def source(q, self):
        for n in fld:
            if q.is_variant(self, vi[n]):
                return 'ret', some(field(self, vi[n], 0))
        return 'ret', NONE
    c.conform(c.impl_fn('core::error::Error', E, 'source'), source, 'source of a seal error')

    def shown(an, fn, outs):
        """what each variant's rendering is made of"""
        ps = an.params(fn)
        deb = fn['d'][1].endswith('Debug>::fmt')
        seen = set()
        for o in outs:
            if o.kind != 'ret':
                c.violate('rendering', fn['d'][1], f'panics on [{describe(o)}]')
                continue
            st = path_state(an, o)
            for n, i in vi.items():
                if an.decide(st, eqi(an.discr(ps[0]), i)) == 0:
                    continue
                seen.add(n)
                c.ob('rendering', fn['d'][1], f'{n}: {describe(o)}')
                terms = [t for e in o.events for a in e.args for t in subterms(a)] + list(subterms(o.value))
                for k in range(2 if n == 'NotIncluded' else 1):
                    if field(ps[0], i, k) not in terms and not failed(o):
                        c.violate('rendering', fn['d'][1], f'the rendering of {n} leaves out its field {k}')
                for m, j in vi.items():
                    if j != i and any(field(ps[0], j, k) in terms and an.decide(st, eqi(an.discr(ps[0]), j)) == 0 for k in (0, 1)):
                        c.violate('rendering', fn['d'][1], f'the rendering of {n} reads a field of {m}')
                for t in terms:
                    other = ('Argument::new_debug', 'core::fmt::Debug::fmt') if not deb else ('Argument::new_display', 'core::fmt::Display::fmt')
                    if t.op == 'call' and n != 'NotIncluded' and t.a[0].endswith(other) and field(ps[0], i, 0) in t.a[1:]:
                        c.violate('rendering', fn['d'][1], f'the {"debug" if deb else "display"} rendering of {n} shows the error through {t.a[0]}')
                if deb:
                    for t in terms:
                        if t.op == 'str' and t.a[0].split('::')[-1] != n and t.a[0].split('::')[-1][:3] == n[:3]:
                            c.violate('rendering', fn['d'][1], f'the debug rendering of {n} is labelled {t.a[0]!r}')
                        if t.op == 'str' and t.a[0].split('::')[-1] in vi and t.a[0].split('::')[-1] != n:
                            c.violate('rendering', fn['d'][1], f'the debug rendering of {n} is labelled {t.a[0]!r}')
        if seen != set(vi):
            c.violate('rendering', fn['d'][1], f'renders only {sorted(seen)}')
    for tr in ('Display', 'Debug'):
        f = c.impl_fn('core::fmt::' + tr, E, 'fmt')
        if f:
            an, outs = c.analyse(f)
            shown(an, f, outs)


@prop('C03', 'The witness-less client side passes messages through and merges as identity',
      'The three methods of NoWitness have a single path each; its outcome is compared with the identity.', floor=4)
def c03(c):
    c.rule('NoWitness: convolve_commit(m) = Ok(m); merge leaves self as it was and is Ok; any two are equal')
    W = S + 'NoWitness'
    c.conform(c.impl_fn(S + 'ClientSideWitness', W, 'convolve_commit'), lambda q, self, m: ('ret', ok(m)), 'message passes through')
    c.conform(c.impl_fn(S + 'ClientSideWitness', W, 'merge'), lambda q, self, o: ('ret', ok(UNIT), {0: self}), 'merge is identity')
    c.conform(c.impl_fn('core::cmp::PartialEq', W, 'eq'), lambda q, a, b: ('ret', TRUE), 'all are equal')
