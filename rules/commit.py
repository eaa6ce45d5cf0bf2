from rules import prop
from rules.seals import variants
from spec import *
from ctx import *

CV = 'commit_verify::'
ENG = CV + 'id::CommitEngine'
STEP = CV + 'id::CommitStep'
DX = CV + 'digest::DigestExt'
U64MAX = 2 ** 64 - 1
COMMIT_ID, CONCEAL, MERKLIZE = CV + 'id::CommitId::commit_id', CV + 'conceal::Conceal::conceal', CV + 'merkle::MerkleHash::merklize'


def fields(c, path, want, flavour='release'):
    """Field indices by declared name, else by the only field of that type (private names are free to change).
    want: {role: (name, type predicate)}"""
    a = c.prog(flavour).adt_by_path(path)
    if a is None:
        c.violate('anchor:' + path, path, 'type not found')
        return None
    fs = a['variants'][0]['fields']
    r = {}
    for role, (name, tp) in want.items():
        i = [k for k, f in enumerate(fs) if f['n'] == name]
        if not i:
            i = [k for k, f in enumerate(fs) if tp and tp(tystr(f['ty']))]
        if len(i) != 1:
            c.violate('anchor:' + path, path, f'no field for {role} among {[f["n"] for f in fs]}')
            return None
        r[role] = i[0]
    return r


def engine_fields(c):
    return fields(c, ENG, {'finished': ('finished', lambda t: t == 'bool'), 'hasher': ('hasher', lambda t: t == 'Sha256'),
                           'layout': ('layout', lambda t: 'CommitStep' in t)})


def tagged(alg, tag):
    h = mk('hinit', alg)
    d = mk('digest', mk('absorb', h, tag))
    return mk('absorb', h, d, d)


def wrap(an, t):
    """the value inside newtypes and lossless array conversions"""
    while True:
        if t.op == 'adt' and len(t.a) == 3:
            t = t.a[2]
        elif t.op == 'call' and len(t.a) == 2 and ('Array::from_array' in t.a[0] or t.a[0].startswith('into<')
                                                   and ('Array<u8' in t.a[0] or '[u8' in t.a[0])):
            t = t.a[1]
        else:
            return t


HOWC = ('The hash state and the layout an operation leaves behind are computed symbolically on every path of its MIR (helpers inlined) and '
        'compared with the required ones; hashing and strict encoding are uninterpreted operations, so the result holds for every value.')


@prop('C10', 'A commitment id is the tagged hash of exactly what its encoding committed to', HOWC, floor=8)
def c10(c):
    c.rule('from_tag(t): fresh hasher absorbing H(t) twice; input_raw absorbs its bytes; finish is the digest')
    c.rule('commit_id(x) = From(hasher) of the engine left by x.commit_encode(engine fresh for the id type\'s own TAG); ids are the digest bytes')
    ef = engine_fields(c)
    if not ef:
        return
    n = 0
    for alg in ('Sha256', 'Ripemd160'):
        ty = alg
        c.conform(c.impl_fn(DX, ty, 'from_tag'), lambda q, tag: ('ret', tagged(alg, tag)), f'{alg} tagged engine')
        c.conform(c.impl_fn(DX, ty, 'input_raw'), lambda q, self, d: ('ret', ANY, {0: M.absorb(self, d)}), f'{alg} input')
        c.conform(c.impl_fn(DX, ty, 'finish'), lambda q, self: ('ret', mk('digest', self)), f'{alg} finish')

    def fresh(tag):
        fs = [None] * 3
        fs[ef['finished']], fs[ef['hasher']], fs[ef['layout']] = FALSE, tagged('Sha256', tag), mk('array')
        return adt(ENG, 0, *fs)
    c.conform(c.find(ENG + '::new'), lambda q, tag: ('ret', fresh(tag)), 'new engine')
    c.conform(c.find(ENG + '::finish'), lambda q, self: ('ret', field(self, 0, ef['hasher'])), 'engine finish')
    c.conform(c.find(ENG + '::finish_layout'),
              lambda q, self: ('ret', tup(field(self, 0, ef['hasher']), field(self, 0, ef['layout']))), 'engine finish with layout')
    c.conform(c.find(ENG + '::into_layout'), lambda q, self: ('ret', field(self, 0, ef['layout'])), 'engine layout')
    c.conform(c.find(ENG + '::as_layout'), lambda q, self: ('ret', field(self, 0, ef['layout']),
                                                            {0: with_field(self, 0, ef['finished'], TRUE)}), 'engine layout view')
    c.conform(c.find(ENG + '::set_finished'), lambda q, self: ('ret', UNIT, {0: with_field(self, 0, ef['finished'], TRUE)}), 'engine seal')

    def is_own_tag(an, st, t):
        return t.op == 'assoc' and t.a[0] == CV + 'id::CommitmentId::TAG' and 'CommitEncode::CommitmentId' in str(t.a[1])

    def encoded(self, tag):
        return mk('out', 0, call(CV + 'id::CommitEncode::commit_encode', self, fresh(tag)))

    def own_tag(an, outs):
        ts = {t for o in outs for t in subterms(o.value) if is_own_tag(an, None, t)} if outs else set()
        return ts

    def cid(q, self):
        tag = next(iter(tags[0]), ANYT)
        h = field(encoded(self, tag), 0, ef['hasher'])
        return 'ret', pred(lambda an, st, a: a.op == 'call' and a.a[0].startswith('into<') and 'CommitEncode::CommitmentId' in a.a[0]
                           and len(a.a) == 2 and same(an, st, h, a.a[1]))

    def com(q, self):
        tag = next(iter(tags[0]), ANYT)
        return 'ret', with_field(encoded(self, tag), 0, ef['finished'], TRUE)
    for item, spec in (('commit_id', cid), ('commit', com)):
        f = c.impl_fn(CV + 'id::CommitId', 'T', item)
        if f:
            tags = [own_tag(*c.analyse(f))]
            if len(tags[0]) != 1:
                c.violate('own tag', f['d'][1], f'the engine is not created from the id type\'s TAG: {tags[0]}')
            c.conform(f, spec, item)
    # every id type built from a hash is the digest, nothing else
    p = c.prog()
    for i in p.impls:
        if i.get('trait') and strip_generics(i['trait'][1]) == 'core::convert::From' and len(i.get('targs', [])) == 2 \
                and tystr(i['targs'][1]) == 'Sha256':
            for it in i['items']:
                f = p.fns.get(it['d'][0])
                if f is not None and 'body' in f:
                    n += 1
                    c.conform(f, lambda q, h: ('ret', pred(lambda an, st, a: wrap(an, a) is mk('digest', h))), 'id from hash', key='id from hash')
    c.count('id_types', n, 3)
    # the blanket impl is the only implementation of CommitId: no type can override the pipeline
    imps = [i for i in p.impls if i.get('trait') and strip_generics(i['trait'][1]) == CV + 'id::CommitId']
    if len(imps) != 1:
        c.violate('single pipeline', CV + 'id::CommitId', f'{len(imps)} implementations of CommitId')


def fqn_of(ty):
    """the fully qualified name of the committed type, and of no other"""
    def f(an, st, t):
        if t.op != 'call' or not t.a[0].endswith('TypeFqn::with'):
            return False
        libs = {str(x.a[1]) for x in subterms(t) if x.op == 'assoc'}
        names = {x.a[0] for x in subterms(t) if x.op == 'call' and 'StrictType::strict_name<' in x.a[0]}
        return libs == {ty} and names == {f'strict_encoding::types::StrictType::strict_name<{ty}>'}
    return pred(f)


@prop('C11', 'Each engine operation absorbs the whole value once and records its layout step', HOWC, floor=20)
def c11(c):
    c.rule('commit_to_X(v): hasher absorbs enc(v) (or the id / merkle root / concealed form of v) exactly once; layout gains exactly '
           'the step X naming v\'s type; an encoding failure is never silently dropped')
    ef, sv = engine_fields(c), variants(c, STEP)
    cv = variants(c, CV + 'id::CommitColType')
    if not ef or not sv or not cv:
        return

    def step(n, *x):
        return adt(STEP, sv[n], *x)

    def col(kind, k, *key):
        return step('Collection', adt(CV + 'id::CommitColType', cv[kind], *key), SIZING, fqn_of(k))
    def sizing(an, st, t):
        if t.op == 'adt' and t.a[0].endswith('::Sizing'):
            info = an.adt_paths.get(t.a[0])
            fs = [f['n'] for f in info['variants'][0]['fields']] if info else []
            mm = [t.a[2 + fs.index(n)] for n in ('min', 'max')] if sorted(fs) == ['max', 'min'] else []
        else:
            mm = list(t.a[1:]) if t.op == 'call' and t.a[0].endswith('Sizing::new') else []
        return len(mm) == 2 and all(n in show(x) and x.op in ('cparam', 'cast') for n, x in zip(('MIN', 'MAX'), mm))
    SIZING = pred(sizing)
    ident = lambda v: v
    leaf = 'commit_verify::merkle::MerkleLeaves::Leaf<T>'
    table = [
        ('commit_to_serialized', ident, step('Serialized', fqn_of('T')), U64MAX),
        ('commit_to_option', ident, step('Serialized', fqn_of('T')), U64MAX),
        ('commit_to_hash', lambda v: call(COMMIT_ID, v), step('Hashed', fqn_of('T')), 32),
        ('commit_to_merkle', lambda v: call(MERKLIZE, v), step('Merklized', fqn_of('proj:' + leaf)), 32),
        ('commit_to_concealed', lambda v: call(CONCEAL, v), step('Concealed', fqn_of('T')), U64MAX),
        ('commit_to_linear_list', ident, col('List', 'T'), U64MAX),
        ('commit_to_linear_set', ident, col('Set', 'T'), U64MAX),
        ('commit_to_linear_map', ident, col('Map', 'V', fqn_of('K')), U64MAX),
    ]
    seen = set()
    for name, f, st_, lim in table:
        def spec(q, self, v):
            v = f(v)
            fits = [t for t, _ in q.out.conds if t.op == 'writeok' and t.a[0] is v]
            if not fits:
                raise Mismatch(f'{show(v)[:200]} is not what is written to the hasher')
            w = fits[0]
            limit = w.a[1].a[0] if w.a[1].op == 'int' else 0
            if limit < lim:
                raise Mismatch(f'at most {limit} bytes of the value can be committed')
            if not q(eqi(w, 1)):
                return 'panic', 'a value that can not be encoded'
            h = M.absorb(field(self, 0, ef['hasher']), mk('enc', v))
            l = M.append(field(self, 0, ef['layout']), mk('array', st_))
            return 'ret', ANY, {0: with_field(with_field(self, 0, ef['hasher'], h), 0, ef['layout'], l)}

        def panics(an, o):
            t, fct = o.conds[-1] if o.conds else (None, None)
            if t is None:
                return False
            return t.op == 'fits' and 'confined' in str(t.a[1]) or t.op == 'discr' and any(
                x.op == 'call' and ('LibName' in x.a[0] or 'strict_name' in x.a[0]) for x in subterms(t))
        fn = c.find(ENG + '::' + name)
        seen.add(name)
        op = (COMMIT_ID, MERKLIZE)
        c.conform(fn, spec, name, opaque=op, panics=panics, flavours=('release',))
        c.conform(fn, spec, name, opaque=op, panics='any', flavours=('debug',))
    p = c.prog()
    allops = {strip_generics(k).split('::')[-1] for k, l in p.by_path.items() if strip_generics(k).startswith(ENG + '::commit_to_')
              and '{' not in k and l[0].get('vis') == 'pub'}
    if allops - seen:
        c.notes.append(f'commit operations this rule does not know: {sorted(allops - seen)}')
    c.count('operations', len(allops), 8)


@prop('C18', 'Length-prefixed input is preceded by its exact length', 'Each width branch of the MIR is evaluated symbolically for every length: '
      'the prefix must be the untruncated length, little endian, in the number of bytes the maximum calls for.', floor=8)
def c18(c):
    c.rule('for a maximum below 2^8, 2^16, 2^24, 2^32: the length in 1, 2, 3, 4 little-endian bytes, then the data; a length that does not fit, or a larger maximum, panics')
    raw = DX + '::input_raw'

    def prefix(n, x):
        return mk('bytesof', 'le', INT(n), x) if n > 1 else mk('array', x)

    def TRUNC(x):
        return pred(lambda an, st, a: a is x or a.op == 'cast' and a.a[2] is x)

    def spec(q, self, data):
        mx, ln = mk('cparam', 'MAX'), mk('len', data)
        for n in (1, 2, 3, 4):
            if q(lt(mx, INT(1 << 8 * n))):
                if any(lt(mx, ln) is t for t, _ in q.out.conds):
                    # a check against the maximum itself also makes the length fit
                    if q(lt(mx, ln)):
                        return 'panic', 'longer than the maximum'
                    a = mk('out', 0, call(raw, self, prefix(n, TRUNC(ln))))
                    return 'ret', UNIT, {0: mk('out', 0, call(raw, a, data))}
                wide = [t for t, _ in q.out.conds if t.op == 'fits' and t.a[0] is ln]
                for t in wide:
                    if not q(t):
                        return 'panic', 'too long'
                if not any(isinstance(t.a[1], int) and t.a[1] <= 8 * n or isinstance(t.a[1], Term) and t.a[1].a[0] <= 8 * n for t in wide):
                    raise Mismatch(f'the length is not checked to fit its {n}-byte prefix')
                a = mk('out', 0, call(raw, self, prefix(n, ln)))
                return 'ret', UNIT, {0: mk('out', 0, call(raw, a, data))}
        return 'panic', 'too large'
    c.conform(c.find(DX + '::input_with_len'), spec, 'length prefix')
    # no implementation replaces the provided method
    for i in c.prog().impls:
        if i.get('trait') and strip_generics(i['trait'][1]) == DX and any(x['d'][1].endswith('input_with_len') for x in i['items']):
            c.violate('override', tystr(i['targs'][0]), 'replaces the length-prefixed input')
