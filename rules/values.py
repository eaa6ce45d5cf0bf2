from rules import prop
from rules.commit import fields, CV
from rules.encoding import WRAPPED, TREE, BLOCK, PROOF, LEAF
from spec import *
from ctx import *

CRATES = ('commit_verify', 'client_side_validation', 'single_use_seals')
ARR = 'amplify::collection::array::Array'


@prop('C34', 'An identifier consists of exactly the bytes it was made from',
      'All paths of every conversion into and out of the 32-byte identifiers are compared with the identity on bytes.', floor=30)
def c34(c):
    c.rule('conversions between an identifier and a 32-byte array, in both directions, are the identity; copy_from_slice passes on the result of the array type')
    n = 0
    p = c.prog()
    for ty in WRAPPED:
        a = p.adt_by_path(ty)
        if not a:
            c.violate('anchor:' + ty, ty, 'type not found')
            continue

        def wrapped(q, x):
            return 'ret', adt(ty, 0, x)

        def raw(q, x):
            return 'ret', field(x, 0, 0)

        def same_bytes(x):
            return pred(lambda an, st, v: byte_source(v) is byte_source(x))
        for i in p.impls:
            if not i.get('trait'):
                continue
            tr = i['trait'][1]
            ts = [strip_generics(tystr(t)) if isinstance(t, dict) else '' for t in i['targs']]
            item = [it['d'] for it in i['items'] if it['d'][0] in p.fns and 'body' in p.fns[it['d'][0]]]
            if tr == 'core::convert::From' and ts[0] == ty and (ts[1] == ARR or ts[1].startswith('[u8')):
                f = p.fns[[d for d in item if d[1].endswith('::from')][0][0]]
                c.conform(f, lambda q, x: ('ret', adt(ty, 0, same_bytes(x))), 'conversion from bytes')
                n += 1
            elif tr == 'core::convert::From' and len(ts) > 1 and ts[1] == ty and (ts[0] == ARR or ts[0].startswith('[u8')):
                f = p.fns[[d for d in item if d[1].endswith('::from')][0][0]]
                c.conform(f, lambda q, x: ('ret', same_bytes(field(x, 0, 0))), 'conversion to bytes')
                n += 1
            elif ts and ts[0] == ty and tr in ('amplify::traits::wrapper::Wrapper', 'core::ops::deref::Deref', 'core::convert::AsRef', 'core::borrow::Borrow'):
                for d in item:
                    m = d[1].split('::')[-1]
                    if m == 'from_inner':
                        c.conform(p.fns[d[0]], wrapped, 'conversion from bytes')
                    elif m in ('as_inner', 'into_inner', 'deref', 'as_ref', 'borrow', 'as_slice'):
                        c.conform(p.fns[d[0]], lambda q, x: ('ret', same_bytes(field(x, 0, 0))), 'conversion to bytes')
                    else:
                        continue
                    n += 1
        f = next((x for l in p.by_path.values() for x in l if 'body' in x and strip_generics(x['d'][1]) == ty + '::copy_from_slice'), None)
        if f:
            n += 1

            def spec(q, s):
                r = call(ARR + '::copy_from_slice', s)
                r = next((t for t in subterms_of(q) if t.op == 'call' and t.a[0].endswith('Array::copy_from_slice') and t.a[1] is s), r)
                if q.is_ok(r):
                    return 'ret', adt(RESULT, 0, adt(ty, 0, field(r, 0, 0)))
                return 'ret', adt(RESULT, 1, field(r, 1, 0))
            c.conform(f, spec, 'conversion from a slice')
    c.count('conversions', n, 30)


def subterms_of(q):
    for t, _ in q.out.conds:
        yield from subterms(t)
    if isinstance(q.out.value, Term):
        yield from subterms(q.out.value)


def byte_source(t):
    """the array behind the wrappers of a byte array"""
    while True:
        if t.op == 'adt' and len(t.a) == 3 and (t.a[0] == ARR or t.a[0] in WRAPPED):
            t = t.a[2]
        elif t.op == 'call' and len(t.a) == 2 and t.a[0].startswith('into<' + ARR):
            t = t.a[1]
        elif t.op == 'field' and t.a[0].op in ('field', 'param') and t.a[1:] == (0, 0):
            t = t.a[0]
        elif t.op in ('ref', 'deref', 'bytes_of', 'slice_of') and len(t.a) == 1:
            t = t.a[0]
        else:
            return t


@prop('C35', 'Equality and ordering of values consider all of their content',
      'All paths of every PartialEq and Ord implementation of the workspace types are compared with field by field equality and the '
      'lexicographic order.', floor=100)
def c35(c):
    c.rule('eq is true exactly when both are the same variant and all fields are equal; cmp orders by the first field which differs, and partial_cmp agrees')
    p = c.prog()
    n = 0
    ords = {strip_generics(tystr(i['targs'][0])) for i in p.impls if i.get('trait') and i['trait'][1] == 'core::cmp::Ord'}
    for i in p.impls:
        if not i.get('trait') or i['crate'] not in CRATES or i['trait'][1] not in (
                'core::cmp::PartialEq', 'core::cmp::Ord', 'core::cmp::PartialOrd'):
            continue
        ts = [strip_generics(tystr(t)) for t in i['targs'] if isinstance(t, dict)]
        if len(ts) > 1 and ts[1] != ts[0]:
            continue
        a = p.adt_by_path(ts[0])
        if not a:
            continue
        vs = []
        for v in a['variants']:
            vs.append([k for k, f in enumerate(v['fields']) if 'PhantomData' not in tystr(f['ty'])])
        discr = [int(v['discr']) for v in a['variants']]

        def variant(q, x):
            if len(vs) == 1:
                return 0
            for k, d in enumerate(discr[:-1]):
                if q(eqi(q.discr(x), d)):
                    return k
            return len(discr) - 1

        def eq(q, x, y):
            if len(vs) > 1 and not q.eq(q.discr(x), q.discr(y)):
                return 'ret', INT(0)
            k = variant(q, x)
            for f in vs[k]:
                if not q.eq(field(x, k, f), field(y, k, f)):
                    return 'ret', INT(0)
            return 'ret', INT(1)

        def ne(q, x, y):
            r = eq(q, x, y)
            return 'ret', INT(1 - r[1].a[0])

        def cmp(q, x, y):
            k, j = variant(q, x), variant(q, y)
            if k != j:
                return 'ret', pred(lambda an, st, v: is_order(an, st, v, -1 if discr[k] < discr[j] else 1, q.discr(x), q.discr(y), *whole(x, y)))
            for f in vs[k]:
                a_, b_ = field(x, k, f), field(y, k, f)
                if not q.eq(a_, b_):
                    return 'ret', pred(lambda an, st, v: order_of(an, st, v, a_, b_, *whole(x, y)))
            return 'ret', pred(lambda an, st, v: order_equal(an, st, v, *whole(x, y)))
        # PartialOrd may refer to Ord; Ord itself may not be circular
        whole = (lambda x, y: (x, y)) if i['trait'][1].endswith('PartialOrd') and ts[0] in ords else (lambda x, y: (None, None))
        for it in i['items']:
            f = p.fns.get(it['d'][0])
            if not f or 'body' not in f:
                continue
            m = it['d'][1].split('::')[-1]
            n += 1
            if m == 'eq':
                c.conform(f, eq, 'equality', flavours=('release',))
            elif m == 'ne':
                c.conform(f, ne, 'inequality', flavours=('release',))
            elif m in ('cmp', 'partial_cmp'):
                c.conform(f, cmp, 'ordering', flavours=('release',))
            elif m in ('lt', 'le', 'gt', 'ge', 'max', 'min', 'clamp'):
                c.violate('ordering', fn_name(f), 'a comparison operator is implemented by hand')
    c.count('comparisons', n, 40)


def core(v):
    return v.a[2] if v.op == 'adt' and v.a[0].endswith('Option') and v.a[1] == 1 else v


def order_of(an, st, v, a, b, x=None, y=None):
    """v is the order of a and b, which differ"""
    v = core(v)
    if v.op == 'cmp' and v.a[0] is x and v.a[1] is y:
        return True     # the order of the values themselves, by their own Ord
    if v.op == 'cmp':
        return same(an, st, v.a[0], a) and same(an, st, v.a[1], b)
    if v.op == 'call' and v.a[0].split('::')[-1] in ('cmp', 'partial_cmp') and len(v.a) == 3:
        return same(an, st, v.a[1], a) and same(an, st, v.a[2], b)
    if v.op == 'field' and v.a[0].op == 'call':
        return order_of(an, st, v.a[0], a, b)
    if v.op == 'adt' and v.a[0] == 'core::cmp::Ordering':
        d = an.decide(st, mk('lt', a, b))
        return d is not None and v.a[1] == (0 if d else 2)
    return False


def order_equal(an, st, v, x=None, y=None):
    v = core(v)
    if v.op == 'adt' and v.a[0] == 'core::cmp::Ordering':
        return v.a[1] == 1
    if v.op == 'cmp':
        k = st.know.get(v.a[0])
        return v.a[0] is x and v.a[1] is y or an.decide(st, M.eqv(an, v.a[0], v.a[1])) == 1 or \
            bool(k) and k[0] == 'eq' and st.know.get(v.a[1]) == k
    return False


def is_order(an, st, v, sign, dx, dy, x=None, y=None):
    v = core(v)
    if v.op == 'cmp' and v.a[0] is x and v.a[1] is y:
        return True
    if v.op == 'adt' and v.a[0] == 'core::cmp::Ordering':
        return v.a[1] == sign + 1
    if v.op == 'cmp':
        return v.a[0] is dx and v.a[1] is dy or (v.a[0].op == 'int' or v.a[1].op == 'int')
    return False


def named(c, ty, name, variant=None):
    """the index of a field of a struct, or of the named variant of an enum"""
    a = c.prog().adt_by_path(ty)
    if a is None:
        return None
    vs = [(k, v) for k, v in enumerate(a['variants']) if variant is None or v['n'] == variant]
    if len(vs) != 1:
        return None
    k, v = vs[0]
    r = [i for i, f in enumerate(v['fields']) if f['n'] == name]
    return (k, r[0]) if len(r) == 1 else None


GETTERS = {
    TREE: {'depth': 'depth', 'cofactor': 'cofactor', 'entropy': 'entropy'},
    BLOCK: {'method': 'method', 'depth': 'depth', 'cofactor': 'cofactor', 'entropy': 'entropy'},
    PROOF: {'method': 'method', 'pos': 'pos', 'cofactor': 'cofactor', 'into_path': 'path', 'to_path': 'path', 'as_path': 'path'},
    CV + 'id::CommitLayout': {'idty': 'idty', 'tag': 'tag', 'fields': 'fields'},
}


@prop('C36', 'Accessors and constructors give back the parameters they were given',
      'All paths of every plain accessor and constructor are compared with the field it stands for.', floor=30)
def c36(c):
    c.rule('the accessors of trees, blocks, proofs and layouts return the field of their name, unchanged')
    c.rule('the constructors of leaves, seal witnesses and message sources store every argument in the field it is meant for')
    n = 0
    for ty, gs in GETTERS.items():
        for m, fl in gs.items():
            i = named(c, ty, fl)
            if i is None:
                i = by_result(c, ty, m)
            if i is None:
                c.violate('anchor:' + ty + m, ty, f'no field for {m} found')
                continue
            n += 1
            c.conform(c.find(ty + '::' + m), lambda q, s, i=i: ('ret', field(s, *i)), 'accessor ' + m)
    W = 'single_use_seals::SealWitness'
    a, b = named(c, W, 'published'), named(c, W, 'client')
    f = c.find(W + '::new')
    if f and a and b:
        n += 1
        c.conform(f, lambda q, x, y: ('ret', pred(lambda an, st, v: field(v, *a) is x and field(v, *b) is y)), 'constructor')
    for m, args in (('inhabited', ('protocol', 'message')), ('entropy', ('entropy', 'pos'))):
        ks = [named(c, LEAF, x, m.capitalize()) for x in args]
        f = c.find(LEAF + '::' + m)
        if f and all(ks):
            n += 1
            k = ks[0][0]
            vals = lambda xs: adt(LEAF, k, *[x for _, x in sorted(zip([i for _, i in ks], xs))])
            c.conform(f, lambda q, x, y, vals=vals: ('ret', vals((x, y))), 'constructor')
        else:
            c.violate('anchor:' + LEAF + m, LEAF, 'variant not found')
    SRC = CV + 'mpc::atoms::MultiSource'
    names = {x: named(c, SRC, x) for x in ('method', 'min_depth', 'messages', 'static_entropy')}
    d = c.impl_fn('core::default::Default', SRC, 'default')
    f = c.find(SRC + '::with_static_entropy')
    if d and f and all(names.values()):
        for fl in ('release', 'debug'):
            an, outs = c.analyse(c.prog(fl).fns[d['d'][0]], (), fl)
            rets = [o for o in outs if o.kind == 'ret']
            if len(rets) != 1 or rets[0].conds:
                c.violate('constructor', fn_name(d), 'the default is not a single value')
                continue
            v = rets[0].value
            n += 1
            e = field(v, *names['static_entropy'])
            c.ob('constructor', fn_name(d), show(v)[:200])
            if not (e.op == 'adt' and e.a[1] == 0):
                c.violate('constructor', fn_name(d), f'the default source has the entropy {show(e)[:200]}')
            if not empty_value(field(v, *names['messages'])):
                c.violate('constructor', fn_name(d), f'the default source has the messages {show(field(v, *names["messages"]))[:200]}')
            want = {x: field(v, *i) for x, i in names.items()}

            def spec(q, x):
                fs = [None] * len(names)
                for m, (_, i) in names.items():
                    fs[i] = adt('core::option::Option', 1, x) if m == 'static_entropy' else want[m]
                return 'ret', adt(SRC, 0, *fs)
            c.conform(f, spec, 'constructor', flavours=(fl,))
            n += 1
    c.count('functions', n, 20)


def empty_value(t):
    return t.op in ('array', 'mapof', 'emptymap', 'map', 'setof') and not [x for x in t.a if isinstance(x, Term) and not empty_value(x)] or \
        t.op == 'call' and t.a[0].split('::')[-1] in ('default', 'new')


def by_result(c, ty, m):
    """the only field with the type the accessor returns (private fields are free to be renamed)"""
    f = c.find(ty + '::' + m)
    a = c.prog().adt_by_path(ty)
    if f is None or a is None or len(a['variants']) != 1:
        return None
    r = tystr(f['body']['locals'][0])
    k = [i for i, x in enumerate(a['variants'][0]['fields']) if tystr(x['ty']) == r or '&' + tystr(x['ty']) == r]
    return (0, k[0]) if len(k) == 1 else None


LAYOUT, STEP, COL, PRED, ATTR = CV + 'id::CommitLayout', CV + 'id::CommitStep', CV + 'id::CommitColType', CV + 'vesper::Pred', CV + 'vesper::Attr'


def names_type(fqn):
    """the name of the fully qualified type name fqn"""
    return pred(lambda an, st, t: t.op == 'call' and t.a[0].endswith('to_ident') and len(t.a) == 2 and t.a[1].op == 'field' and t.a[1].a[0] is fqn)


def carries(x):
    """x, possibly converted"""
    return pred(lambda an, st, t: t is x or t.op == 'call' and len(t.a) == 2 and t.a[0].startswith('into<') and t.a[1] is x)


@prop('C37', 'The published layout of a commitment lists its id type, tag and every step',
      'The layout of a type and its Vesper description are evaluated symbolically, for layouts with any number of steps, and compared with '
      'the engine\'s own record.', floor=12)
def c37(c):
    c.rule('commitment_layout names the id type and its TAG and holds the steps recorded while committing to a value of the type')
    c.rule('the description has the id type as subject, its tag, and for each step, in order, one entry with the kind of the step, its type and its parameters')
    p = c.prog()
    li = {n: named(c, LAYOUT, n) for n in ('idty', 'tag', 'fields')}
    sv, cv_, pv, av = ({v['n']: k for k, v in enumerate((p.adt_by_path(t) or {'variants': []})['variants'])} for t in (STEP, COL, PRED, ATTR))
    tf = p.adt_by_path('vesper::t_expr::TExpr')
    if not all(li.values()) or not sv or not cv_ or not pv or not av or not tf:
        return c.violate('anchor:layout', LAYOUT, 'the layout types were not found')
    ti = {f['n']: k for k, f in enumerate(tf['variants'][0]['fields'])}

    # the layout of a type
    f = c.impl_fn(CV + 'id::CommitmentLayout', 'T', 'commitment_layout')
    ef = fields(c, CV + 'id::CommitEngine', {'layout': ('layout', lambda t: 'CommitStep' in t)})
    new = c.find(CV + 'id::CommitEngine::new')
    if f and ef and new:
        idt = 'proj:' + CV + 'id::CommitEncode::CommitmentId<T>'
        for fl in ('release', 'debug'):
            an, outs = c.analyse(c.prog(fl).fns[f['d'][0]], (), fl)
            n = 0
            for o in outs:
                if o.kind != 'ret':
                    continue
                n += 1
                v = o.value
                c.ob('layout', fn_name(f), describe(o)[:200])
                enc = [t for t in subterms(field(v, *li['fields'])) if t.op == 'call' and t.a[0].endswith('CommitEncode::commit_encode')]
                if len(enc) != 1 or field(v, *li['fields']) is not field(mk('out', 0, enc[0]), 0, ef['layout']) and \
                        field(v, *li['fields']) is not field(mk('out', 1, enc[0]), 0, ef['layout']):
                    c.violate('layout', fn_name(f), f'its steps are {show(field(v, *li["fields"]))[:300]}, not what committing to a value records')
                else:
                    tags = {str(t.a[0]) + ' of ' + str(t.a[1]) for t in subterms(enc[0].a[2]) if t.op == 'assoc'}
                    if tags != {CV + 'id::CommitmentId::TAG of ' + idt}:
                        c.violate('layout', fn_name(f), f'its steps are recorded by an engine made with {tags}')
                tag = field(v, *li['tag'])
                if not (tag.op == 'assoc' and tag.a[0].endswith('CommitmentId::TAG') and str(tag.a[1]) == idt):
                    c.violate('layout', fn_name(f), f'its tag is {show(tag)[:200]}')
                idty = field(v, *li['idty'])
                if {str(t.a[1]) for t in subterms(idty) if t.op == 'assoc'} != {idt} or \
                        any('strict_name' in t.a[0] and 'CommitmentId<T>' not in t.a[0] for t in subterms(idty) if t.op == 'call'):
                    c.violate('layout', fn_name(f), f'its id type is named {show(idty)[:300]}')
            if not n:
                c.violate('layout', fn_name(f), 'never returns')

    # its description
    fs = [x for l in p.by_path.values() for x in l if 'body' in x and x['d'][1].endswith('::to_vesper') and 'CommitLayout' in x['d'][1]]
    if len(fs) != 1:
        return c.violate('anchor:to_vesper', LAYOUT, f'{len(fs)} functions describe a layout')
    f = fs[0]

    d = c.impl_fn('core::fmt::Display', LAYOUT, 'fmt')
    if d:

        def shown(q, x, fm):
            def is_text(an, st, v):
                while v.op == 'call' and v.a[0].endswith('TExpr::display') and len(v.a) == 2:
                    v = v.a[1]
                return v.op == 'call' and 'to_vesper' in v.a[0] and v.a[1] is x

            def ok_(an, st, v):
                if v.op != 'call':
                    return False
                if v.a[0].endswith('Formatter::write_fmt') and v.a[1] is fm and v.a[2].op == 'call' and len(v.a[2].a) == 3:
                    # write!(f, "{}", x): one plain placeholder
                    t, a = v.a[2].a[1:]
                    return t is mk('array', INT(192), INT(0)) and a.op == 'array' and len(a.a) == 1 and \
                        a.a[0].a[0].endswith('Argument::new_display') and is_text(an, st, a.a[0].a[1])
                return v.a[0] == 'core::fmt::Display::fmt' and is_text(an, st, v.a[1]) and v.a[2] is fm
            return 'ret', pred(ok_)
        c.conform(d, shown, 'text of a layout', opaque=(f['d'][1],))

    def texpr(subject, kind, attrs=(), content=()):
        r = [ANYT] * len(ti)
        r[ti['subject']], r[ti['predicate']] = subject, adt(PRED, pv[kind])
        r[ti['attributes']], r[ti['content']] = mk('array', *attrs), mk('array', *content)
        return adt('vesper::t_expr::TExpr', 0, *r)

    def entry(q, el):
        names = list(sv)
        k = next((n for n in names[:-1] if q.is_variant(el, sv[n])), names[-1])
        fl = lambda i: field(el, sv[k], i)
        if k != 'Collection':
            return texpr(names_type(fl(0)), k, [adt(ATTR, av['Concealed'], fl(0))] if k == 'Concealed' else [])
        ct = fl(0)
        cn = list(cv_)
        j = next((n for n in cn[:-1] if q.is_variant(ct, cv_[n])), cn[-1])
        inner = [texpr(names_type(field(ct, cv_['Map'], 0)), 'MapKey'), texpr(names_type(fl(2)), 'MapValue')] if j == 'Map' \
            else [texpr(names_type(fl(2)), 'Element')]
        return texpr(names_type(fl(2)), j, [adt(ATTR, av['LenRange'], carries(fl(1)))], inner)
    kinds = set()
    for fl in ('release', 'debug'):
        an, outs = c.analyse(c.prog(fl).fns[f['d'][0]], (), fl)
        self = an.params(f)[0]
        rets = [o for o in outs if o.kind == 'ret']
        if not rets:
            c.violate('description', fn_name(f), 'never returns')
        for o in rets:
            st = path_state(an, o)
            v = o.value
            g = lambda n: field(v, 0, ti[n])
            if not same(an, st, names_type(field(self, *li['idty'])), g('subject')) or not same(an, st, adt(PRED, pv['Commitment']), g('predicate')):
                c.violate('description', fn_name(f), f'the subject is {show(g("subject"))[:200]} {show(g("predicate"))[:60]}')
            at = g('attributes')
            if at.op != 'array' or adt(ATTR, av['Tagged'], field(self, *li['tag'])) not in at.a or len(at.a) != 2:
                c.violate('description', fn_name(f), f'the attributes are {show(at)[:300]}')
            body = g('content')
            if body.op != 'comp' or body.a[0] is not field(self, *li['fields']):
                c.violate('description', fn_name(f), f'the entries are {show(body)[:300]}, not one for each step')
                continue
            el = mk('el', body.a[0], 0, body.a[2])
            left = [st]
            for conds, got in comp_paths(body):
                left = split(an, left, [x for x in conds if x[0].op != 'fits'])[1]
                s = State()
                if not all(learn(an, s, x) for x in conds):
                    continue
                for s2, want, _ in explore(an, s, lambda q: entry(q, el)):
                    kinds |= {x.a[1] for x in subterms(want) if x.op == 'adt' and x.a[0] == PRED}
                    c.ob('description', fn_name(f), show(got)[:200])
                    if not same(an, s2, want, got):
                        c.violate('description', fn_name(f), f'a step is described as {show(got)[:400]} where {show(want)[:400]} is required '
                                  f'[{" & ".join(showcond(x) for x in conds)[:300]}]')
            for k in sv.values():
                for j in cv_.values():
                    kind = ((mk('discr', el), ('eq', k)), (mk('discr', field(el, sv['Collection'], 0)), ('eq', j)))
                    if any(all(learn(an, s, x) for x in kind) for s in (s.copy() for s in left)):
                        c.violate('description', fn_name(f), f'a step of variant {k}/{j} has no entry')
    c.count('kinds of entries', len(kinds), 9)


FMT = {'Display': ('Display', 'LowerHex'), 'LowerHex': ('LowerHex',), 'UpperHex': ('UpperHex',)}


@prop('C39', 'The text form of an identifier is the text form of its bytes, both ways',
      'All paths of the formatting and parsing implementations of the 32-byte identifiers are compared with those of the byte array.', floor=20)
def c39(c):
    c.rule('Display, LowerHex and UpperHex print the bytes with the same formatter; FromStr and FromHex wrap what parsing the bytes gives, and fail exactly when it fails')
    c.rule('indexing and slicing an identifier is indexing and slicing its bytes')
    n = 0
    p = c.prog()
    for ty in WRAPPED:
        for i in p.impls:
            if not i.get('trait') or not i.get('targs') or strip_generics(tystr(i['targs'][0])) != ty:
                continue
            tr = strip_generics(i['trait'][1])
            short = tr.split('::')[-1]
            for it in i['items']:
                f = p.fns.get(it['d'][0])
                if not f or 'body' not in f:
                    continue
                m = it['d'][1].split('::')[-1]
                if tr.startswith('core::fmt::') and short in FMT and m == 'fmt':
                    n += 1
                    c.conform(f, lambda q, x, g, short=short: ('ret', pred(lambda an, st, v: any(
                        v is call(f'core::fmt::{k}::fmt', field(x, 0, 0), g) for k in FMT[short]))), 'text form')
                elif (short, m) in (('FromStr', 'from_str'), ('FromHex', 'from_byte_iter'), ('FromHex', 'from_hex')):
                    n += 1

                    inner = tystr(p.adt_by_path(ty)['variants'][0]['fields'][0]['ty'])

                    def parse(q, s, key=f'{tr}::{m}' + (f'<{inner}>' if m == 'from_str' else '')):
                        r = call(key, s)
                        if q.is_ok(r):
                            return 'ret', adt(RESULT, 0, adt(ty, 0, field(r, 0, 0)))
                        return 'ret', adt(RESULT, 1, field(r, 1, 0))
                    c.conform(f, parse, 'parsing')
                elif short == 'Index' and m == 'index':
                    n += 1

                    def part(q, x, k):
                        return 'ret', pred(lambda an, st, v: v.op in ('call', 'index') and len(v.a) >= 2
                                           and v.a[-1] is k and byte_source(v.a[-2]) is byte_source(field(x, 0, 0)))
                    c.conform(f, part, 'part', panics='any')
                elif short in ('IndexMut', 'DerefMut', 'AsMut', 'BorrowMut'):
                    c.violate('part', fn_name(f), 'an identifier can be changed in place')
    c.count('functions', n, 20)


@prop('C40', 'A clone equals its original, and equal values hash alike',
      'All paths of every Clone and Hash implementation of the workspace types are compared with the fields of the value.', floor=40)
def c40(c):
    c.rule('clone gives the same variant with every field cloned from the same field of the original')
    c.rule('what a Hash implementation feeds to the hasher is the variant and fields equality compares, and nothing else')
    p = c.prog()
    n = 0
    for i in p.impls:
        if not i.get('trait') or i['crate'] not in CRATES or i['trait'][1] not in ('core::clone::Clone', 'core::hash::Hash') or not i.get('targs'):
            continue
        ty = strip_generics(tystr(i['targs'][0]))
        a = p.adt_by_path(ty)
        if not a:
            continue
        for it in i['items']:
            f = p.fns.get(it['d'][0])
            if not f or 'body' not in f:
                continue
            n += 1
            m = it['d'][1].split('::')[-1]
            if m == 'clone':
                clone_is(c, f, ty, a)
            elif m == 'hash':
                hash_is(c, f, ty, a)
            else:
                c.violate(m, fn_name(f), f'{m} is implemented by hand')
    c.count('implementations', n, 40)


def clone_is(c, f, ty, a):
    for fl in ('release', 'debug'):
        g = c.prog(fl).fns[f['d'][0]]
        try:
            an, outs = c.analyse(g, (), fl)
        except (Unsupported, RecursionError) as e:
            c.violate('clone', fn_name(f), f'could not be analysed: {e}')
            continue
        x = an.params(g)[0]
        for o in outs:
            if o.kind != 'ret':
                c.violate('clone', fn_name(f), f'cloning panics: {describe(o)[:300]}')
                continue
            for k, v in enumerate(a['variants']):
                st = path_state(an, o)
                if st is None:
                    continue
                for s in an.assume(st, eqi(an.discr(x), int(v['discr'])), 1) if len(a['variants']) > 1 else [st]:
                    c.ob('clone', fn_name(f), v['n'])
                    y = o.value
                    if len(a['variants']) > 1 and an.decide(s, eqi(an.discr(y), int(v['discr']))) != 1 and y is not x:
                        c.violate('clone', fn_name(f), f'the clone of {v["n"]} is {show(y)[:300]}')
                        continue
                    for j, fd in enumerate(v['fields']):
                        if 'PhantomData' not in tystr(fd['ty']) and not same(an, s, field(x, k, j), field(y, k, j)):
                            c.violate('clone', fn_name(f), f'the field {fd["n"]} of the clone is {show(field(y, k, j))[:300]}')


def hash_is(c, f, ty, a):
    try:
        an, outs = c.analyse(f)
    except (Unsupported, RecursionError) as e:
        c.violate('hash', fn_name(f), f'could not be analysed: {e}')
        return
    x = an.params(f)[0]
    real = {(k, j) for k, v in enumerate(a['variants']) for j, fd in enumerate(v['fields']) if 'PhantomData' not in tystr(fd['ty'])}

    def allowed(t):
        if t is x:
            return False
        if t.op == 'field' and t.a[0] is x:
            return (t.a[1], t.a[2]) in real
        if t.op == 'discr' and t.a[0] is x:
            return True
        return t.op not in ('nonce', 'addr', 'rawptr', 'ptr') and all(allowed(y) for y in t.a if isinstance(y, Term))
    for o in outs:
        if path_state(an, o) is None:
            continue
        for e in o.events:
            c.ob('hash', fn_name(f), e.key)
            if e.kind == 'nondet':
                c.violate('hash', fn_name(f), f'the hash depends on {e.key}')
            elif e.kind == 'call':
                for t in e.args:
                    if isinstance(t, Term) and not allowed(t):
                        c.violate('hash', fn_name(f), f'what is hashed is not (only) the compared content: {show(t)[:300]}')
        for t, _ in o.conds:
            if not allowed(t):
                c.violate('hash', fn_name(f), f'the hash depends on {show(t)[:300]}')


@prop('C42', 'Every verdict, error and layout word has its own complete text',
      'What every Display implementation of a workspace type writes is computed per variant, and compared between variants.', floor=20)
def c42(c):
    c.rule('displaying a value never panics and shows every field of its variant, none of them right after words naming another one')
    c.rule('no two variants of a type have the same words')
    c.rule('the source of an error is the error it wraps, and an error which wraps none has no source')
    p = c.prog()
    n = 0
    for i in p.impls:
        if not i.get('trait') or i['crate'] not in CRATES or not i.get('targs'):
            continue
        ty = strip_generics(tystr(i['targs'][0]))
        a = p.adt_by_path(ty)
        if not a or ty in WRAPPED or ty == CV + 'id::CommitLayout':
            continue
        for it in i['items']:
            f = p.fns.get(it['d'][0])
            if not f or 'body' not in f:
                continue
            if i['trait'][1] == 'core::fmt::Display' and it['d'][1].endswith('::fmt'):
                n += 1
                words_of(c, f, ty, a)
            elif i['trait'][1] == 'core::error::Error' and it['d'][1].endswith('::source'):
                n += 1
                source_of(c, f, ty, a)
    c.count('implementations', n, 10)


def in_variant(an, st, x, a, k):
    """the states of a path on which x is of the variant k"""
    if len(a['variants']) == 1:
        return [st]
    return an.assume(st, eqi(an.discr(x), int(a['variants'][k]['discr'])), 1)


SHOWN = ('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_lower_exp',
         'Display::fmt', 'Debug::fmt', 'LowerHex::fmt', 'UpperHex::fmt', 'ToString::to_string')


def words_of(c, f, ty, a):
    try:
        an, outs = c.analyse(f)
    except (Unsupported, RecursionError) as e:
        c.violate('display', ty, f'could not be analysed: {e}')
        return
    x, fm = an.params(f)[:2]
    texts = []
    for o in outs:
        if path_state(an, o) is None:
            continue
        for k, v in enumerate(a['variants']):
            for s in in_variant(an, path_state(an, o), x, a, k):
                if o.kind != 'ret':
                    c.violate('display', ty, f'{v["n"]} can not be displayed: {describe(o)[:300]}')
                    continue
                w = [call(e.key, *[t for t in e.args if isinstance(t, Term) and not has_term(t, fm)]) for e in o.events if e.kind == 'call']
                shown = [t.a[1] for y in w for t in subterms(y) if t.op == 'call' and t.a[0].split('<')[0].endswith(SHOWN) and len(t.a) > 1]
                real = [j for j, fd in enumerate(v['fields']) if 'PhantomData' not in tystr(fd['ty'])]
                miss = [v['fields'][j]['n'] for j in real if not any(same(an, s, t, field(x, k, j)) for t in shown)]
                c.ob('display', ty, f'{v["n"]}: {[str(y)[:60] for y in w]}')
                if miss and ty != CV + 'ReservedBytes' and not failed(an, s, o):
                    c.violate('display', ty, f'{v["n"]} is displayed without its {", ".join(miss)}: {[show(y)[:200] for y in w]}')
                for j, u, where in misplaced(an, s, x, k, v, w):
                    c.violate('display', ty, f'{v["n"]} shows its {v["fields"][j]["n"]} where its text announces its {u}: "{where}"')
                texts.append((k, o, s, w, bool(real) and bare(w)))
    for k, o, s, w, inner in texts:
        for j, o2, s2, w2, inner2 in texts:
            if k < j and not (inner or inner2) and [plain(y, x) for y in w] == [plain(y, x) for y in w2]:
                c.violate('display', ty, f'{a["variants"][k]["n"]} and {a["variants"][j]["n"]} have the same text: {[show(y)[:200] for y in w]}')


def pieces(t, args):
    """the text of a format template before each of the values it shows: [(text, value)], or None when it is not understood"""
    b, i, nxt, text, r = bytes.fromhex(t), 0, 0, '', []
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            return r
        if n < 0x80 or n == 0x80:
            if n == 0x80:
                n = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            text += b[i:i + n].decode('utf-8', 'replace')
            i += n
            continue
        if n < 0xC0:
            return None
        i += 4 * (n & 1) + (n & 2) + 2 * (n >> 2 & 1)
        if n & 8:
            nxt = int.from_bytes(b[i:i + 2], 'little')
            i += 2
        if nxt >= len(args):
            return None
        r.append((text, args[nxt]))
        text, nxt = '', nxt + 1
    return None


def misplaced(an, st, x, k, v, w):
    """fields of a variant shown right after words which announce another one of its fields: (field, name of the other, text).
    The names of fields only speak for themselves: nothing is required of texts which do not use them"""
    names = [fd['n'].split('_') for fd in v['fields']]
    own = [{n for n in ns if len(n) > 2 and not n.isdigit() and sum(n in o for o in names) == 1} for ns in names]
    for t in {y for z in w for y in subterms(z) if y.op == 'call' and y.a[0].endswith('Arguments::new') and len(y.a) == 3}:
        if t.a[1].op != 'cbytes' or t.a[2].op != 'array':
            continue
        seen = {}
        for text, arg in pieces(t.a[1].a[1], t.a[2].a) or ():
            ws = {''.join(ch for ch in y if ch.isalnum()) for y in text.lower().replace('-', ' ').split()}
            for j in range(len(names)):
                if any(same(an, st, y, field(x, k, j)) for y in arg.a[1:] if isinstance(y, Term)):
                    seen.setdefault(j, []).append((ws, text))
        for j, l in seen.items():
            for ws, text in l:
                if ws & own[j]:
                    continue
                for i in range(len(names)):
                    if i != j and ws & own[i] and not any(z & own[i] for z, _ in seen.get(i, ())):
                        yield j, v['fields'][i]['n'], text.strip()


def failed(an, st, o):
    """the formatter has reported an error before all was written"""
    return o.value.op == 'adt' and o.value.a[1] == 1


def has_term(t, x):
    return any(y is x for y in subterms(t))


def letters(t):
    if t.op in ('str', 'bstr'):
        return sum(ch.isalpha() for ch in str(t.a[0]))
    if t.op == 'cbytes':
        return sum(chr(b).isalpha() and b < 128 for b in bytes.fromhex(t.a[1]))
    if t.op == 'array':
        return sum(y.op == 'int' and y.a[0] < 128 and chr(y.a[0]).isalpha() for y in t.a)
    return 0


def bare(w):
    """nothing but the fields of the value is written (with the words of those fields)"""
    return all(letters(t) < 2 for y in w for t in subterms(y))


def plain(t, x):
    if t.op == 'field' and t.a[0] is x:
        return '#'
    return (t.op,) + tuple(plain(y, x) if isinstance(y, Term) else y for y in t.a)


def source_of(c, f, ty, a):
    try:
        an, outs = c.analyse(f)
    except (Unsupported, RecursionError) as e:
        c.violate('source', ty, f'could not be analysed: {e}')
        return
    x = an.params(f)[0]
    for o in outs:
        if path_state(an, o) is None:
            continue
        for k, v in enumerate(a['variants']):
            for s in in_variant(an, path_state(an, o), x, a, k):
                wraps = len(v['fields']) == 1 and 'Error' in tystr(v['fields'][0]['ty'])
                want = [adt(OPTION, 1, field(x, k, 0))] if len(v['fields']) == 1 else []
                c.ob('source', ty, v['n'])
                if o.kind != 'ret' or not any(same(an, s, o.value, y) for y in want + [adt(OPTION, 0)] * (not wraps)):
                    c.violate('source', ty, f'the source of {v["n"]} is {describe(o)[:300]}')
