from rules import prop
from rules.commit import tagged, wrap, CONCEAL, MERKLIZE, CV
from spec import *
from ctx import *

ST = 'strict_encoding::traits::'
HASH, NODE, COMM = CV + 'id::StrictHash', CV + 'merkle::MerkleHash', CV + 'mpc::atoms::Commitment'
TREE, BLOCK, PROOF = CV + 'mpc::tree::MerkleTree', CV + 'mpc::block::MerkleBlock', CV + 'mpc::block::MerkleProof'
LEAF, MNODE, CONCEALED = CV + 'mpc::atoms::Leaf', CV + 'merkle::MerkleNode', CV + 'mpc::block::MerkleConcealed'
CONCEALERS = (f'<{TREE} as {CV}conceal::Conceal>::conceal', f'<{BLOCK} as {CV}conceal::Conceal>::conceal', MERKLIZE)


def lit(t):
    while t.op in ('ref', 'deref') and t.a:
        t = t.a[0]
    return t.a[0] if t.op in ('str', 'int') else None


def const(c, trait, ty, item, flavour='release', config='all'):
    """The value of an associated constant, as the initialiser computes it."""
    f = c.impl_fn(trait, ty, item, flavour, config)
    if f is None:
        return None
    an, outs = c.analyse(f, (), flavour, config)
    rets = [o for o in outs if o.kind == 'ret']
    if len(outs) != 1 or len(rets) != 1:
        c.violate('const:' + item, fn_name(f), 'the constant has no single value')
        return None
    c.ob('const:' + item, fn_name(f), show(rets[0].value))
    return rets[0].value


def ids(c, config, table, opaque):
    """commit_id of every listed type, evaluated with the type substituted into the blanket implementation"""
    p = c.prog('release', config)
    for fl in ('release', 'debug'):
        p = c.prog(fl, config)
        f = c.impl_fn(CV + 'id::CommitId', 'T', 'commit_id', fl, config)
        if f is None:
            return
        for ty, (idty, tag, content) in table.items():
            imp = [i for i in p.impls if i.get('trait') and i['trait'][1] == CV + 'id::CommitEncode'
                   and strip_generics(tystr(i['targs'][0])) == ty]
            if len(imp) != 1:
                c.violate('commit id of ' + ty, ty, f'{len(imp)} implementations of CommitEncode')
                continue
            key = 'commit id of ' + ty.split('::')[-1]
            try:
                an = Analysis(p, opaque)
                outs = an.analyse(f, env={'T': imp[0]['targs'][0]})
            except (Unsupported, RecursionError) as e:
                c.violate(key, ty, f'could not be analysed: {e}')
                continue
            c.fns |= set(an.stats['fns'])
            self = an.params(f)[0]
            n = 0
            for o in outs:
                if o.kind != 'ret':
                    continue
                st = path_state(an, o)
                if st is None:
                    continue
                n += 1
                v = o.value
                if v.op != 'adt' or v.a[0] != idty:
                    c.violate(key, ty, f'the id is {show(v)[:300]}, required: a {idty}')
                    continue
                v = wrap(an, v)
                want = [mk('digest', M.absorb(tagged('Sha256', tag), mk('enc', x))) for x in content(self)]
                if not any(same(an, st, w, v) for w in want):
                    c.violate(key, ty, f'the id is {show(v)[:600]}, required: {show(want[0])[:600]}')
                c.ob(key, ty, describe(o)[:200])
            if not n:
                c.violate(key, ty, 'no path computes an id')


def own(s):
    return [s]


def concealed(s):
    x = call(CONCEAL, s)
    return [x, call(CONCEAL, x)]


HOWI = ('commit_id is evaluated symbolically, end to end through the derived encoding and the engine, with each type substituted for its '
        'parameter; the resulting hash expression must be the required one on every path, hence for every value.')


@prop('C12', 'Every committed type hashes the content its commitment strategy promises', HOWI, floor=20)
def c12(c):
    c.rule('commit_id(x) is id-type(H(tag-midstate ++ enc(content(x)))); content is x for strict, the concealed form for conceal, '
           'the wrapped value for transparent, the merkle root for merklize')
    T = mk('str', 'urn:ubideco:merkle:node#2024-01-31'), mk('str', 'urn:ubideco:mpc:commitment#2024-01-31'), \
        mk('str', 'urn:ubideco:strict-types:value-hash#2024-02-10')
    ids(c, 'all', {
        LEAF: (NODE, T[0], own), MNODE: (NODE, T[0], own), CONCEALED: (COMM, T[1], own),
        TREE: (COMM, T[1], concealed), BLOCK: (COMM, T[1], concealed),
        CV + 'ReservedBytes': (HASH, T[2], own),
    }, CONCEALERS)
    F = 'fixture::'
    ids(c, 'fixture', {
        F + 'ByStrict': (HASH, T[2], own), F + 'GenericStrict': (NODE, T[0], own), F + 'Item': (NODE, T[0], own),
        F + 'ByConceal': (HASH, T[2], concealed),
        F + 'ByTransparent': (HASH, T[2], lambda s: [field(s, 0, 0)]),
        F + 'ByMerkle': (HASH, T[2], lambda s: [call(MERKLIZE, s)]),
    }, (CONCEAL, MERKLIZE))
    # the four strategies the macro accepts are the four the fixture uses
    c.count('types', 12, 12)


@prop('C13', 'Commitment domains are separated by their tags and by leaf and node codes',
      'The tag constants and variant codes are computed from their initialisers and compared: a finite, exhaustive enumeration.', floor=8)
def c13(c):
    c.rule('every CommitmentId::TAG is unique in the workspace and equal to its published value')
    c.rule('the codes with which leaves and branch nodes start their encoding are disjoint, unique and as documented')
    p = c.prog()
    tags = {}
    for i in p.impls:
        if i.get('trait') and i['trait'][1] == CV + 'id::CommitmentId':
            ty = strip_generics(tystr(i['targs'][0]))
            v = const(c, CV + 'id::CommitmentId', ty, 'TAG')
            t = lit(v) if v is not None else None
            if t is None:
                c.violate('tag', ty, f'the tag is not a literal: {v}')
                continue
            if t in tags:
                c.violate('tag', ty, f'shares the tag {t!r} with {tags[t]}')
            tags[t] = ty
    c.count('tags', len(tags), 3)
    want = {HASH: 'urn:ubideco:strict-types:value-hash#2024-02-10', NODE: 'urn:ubideco:merkle:node#2024-01-31',
            COMM: 'urn:ubideco:mpc:commitment#2024-01-31'}
    for ty, t in want.items():
        got = {v: k for k, v in tags.items()}.get(ty)
        c.ob('tag value', ty, str(got))
        if got != t:
            c.violate('tag value', ty, f'the tag is {got!r}, published as {t!r}')
    codes = {}
    for ty, want in ((LEAF, {'inhabited': 0x10, 'entropy': 0x11}), (CV + 'merkle::NodeBranching', {'void': 0, 'single': 1, 'branch': 2})):
        v = const(c, 'strict_encoding::types::StrictSum', ty, 'ALL_VARIANTS')
        if v is None:
            continue
        got = {}
        while v.op not in ('array', 'tuple') and v.a and isinstance(v.a[0], Term):
            v = v.a[0]
        for e in v.a:
            if e.op == 'tuple':
                got[lit(e.a[1])] = lit(e.a[0])
        if got != want:
            c.violate('codes', ty, f'the variant codes are {got}, required {want}')
        for n, k in got.items():
            if k in codes:
                c.violate('codes', ty, f'{n} has the code {k} of {codes[k]}')
            codes[k] = ty + '::' + str(n)
    c.count('codes', len(codes), 5)
    # the code written for a branching is the discriminant the type declares
    a = p.adt_by_path(CV + 'merkle::NodeBranching')
    if a:
        d = {v['n'].lower(): int(v['discr']) for v in a['variants']}
        c.ob('repr', CV + 'merkle::NodeBranching', str(d))
        if d != {'void': 0, 'single': 1, 'branch': 2}:
            c.violate('repr', CV + 'merkle::NodeBranching', f'the representation is {d}')


def written(t):
    """The (names, values) the writer chain ending in t has written, and the variant name."""
    out, var = [], None
    while True:
        if t.op == 'field' or t.op == 'proj':
            t = t.a[0]
        elif t.op == 'call':
            k = t.a[0].split('::')[-1]
            if k.startswith('complete') or t.a[0].startswith('into<'):
                t = t.a[1]
            elif k == 'write_field':
                out.append((name_of(t.a[2]) if len(t.a) == 4 else None, t.a[-1]))
                t = t.a[1]
            elif k in ('write_struct', 'write_tuple', 'write_union'):
                if len(t.a) == 3:
                    var = name_of(t.a[2])
                t = t.a[1]
            elif k in ('write_unit', 'write_newtype'):
                var = name_of(t.a[2])
                if k == 'write_newtype':
                    out.append((None, t.a[3]))
                t = t.a[1]
            elif k.startswith('define_'):
                t = t.a[1]
            else:
                return None
        elif t.op == 'param':
            return list(reversed(out)), var
        else:
            return None


def name_of(t):
    for x in subterms(t):
        if x.op == 'str':
            return x.a[0]
    return None


ENCODED = [LEAF, MNODE, CONCEALED, PROOF, BLOCK, TREE, CV + 'mpc::block::TreeNode', 'single_use_seals::SealWitness']
WRAPPED = [HASH, NODE, COMM, CV + 'mpc::atoms::ProtocolId', CV + 'mpc::atoms::Message']


def camel(n):
    p = n.split('_')
    return p[0] + ''.join(x.capitalize() for x in p[1:])


@prop('C14', 'The strict encoding of a structure contains each of its fields once, in order',
      'The writer chain every encode path builds is read off its MIR and compared with the declaration of the type.', floor=14)
def c14(c):
    c.rule('on every successful encode path the fields written are exactly the fields of the (active variant of the) type, in declaration order, under their own names')
    n = 0
    for ty in ENCODED + WRAPPED:
        f = c.impl_fn(ST + 'StrictEncode', ty, 'strict_encode')
        if f is None:
            continue
        n += 1
        a = c.prog().adt_by_path(ty)
        try:
            an, outs = c.analyse(f)
        except (Unsupported, RecursionError) as e:
            c.violate('encoding', ty, f'could not be analysed: {e}')
            continue
        self = an.params(f)[0]
        seen = set()
        for o in outs:
            st = path_state(an, o)
            if o.kind != 'ret' or st is None or an.decide(st, eqi(an.discr(o.value), 0)) != 1:
                continue
            if o.value.op != 'adt':
                c.violate('encoding', ty, f'writes something else than its fields: {show(o.value)[:300]}')
                continue
            r = written(o.value.a[2])
            if r is None:
                c.violate('encoding', ty, f'writes something else than its fields: {show(o.value)[:300]}')
                continue
            ws, var = r
            v = 0
            if a['kind'] == 'enum':
                vs = [k for k in range(len(a['variants'])) if an.decide(st, eqi(an.discr(self), int(a['variants'][k]['discr']))) == 1]
                if len(vs) != 1:
                    c.violate('encoding', ty, f'one path encodes {len(vs)} variants')
                    continue
                v = vs[0]
                if not var or var.lower() != a['variants'][v]['n'].lower():
                    c.violate('encoding', ty, f'the variant {a["variants"][v]["n"]} is encoded as {var}')
            seen.add(v)
            fs = a['variants'][v]['fields']
            real = [i for i, x in enumerate(fs) if 'PhantomData' not in tystr(x['ty'])]
            want = [field(self, v, i) for i in real]
            got = [x for _, x in ws]
            ok_ = len(got) == len(want) and all(same(an, st, x, y) for x, y in zip(want, got))
            if ok_:
                for (nm, _), fd in zip(ws, [fs[i] for i in real]):
                    if nm is not None and nm.replace('_', '').lower() != fd['n'].replace('_', '').lower():
                        ok_ = False
            c.ob('encoding', ty, f'{var or ""} {[x for x, _ in ws]}')
            if not ok_:
                c.violate('encoding', ty, f'fields written: {[(x, show(y)[:60]) for x, y in ws]}; declared: {[x["n"] for x in fs]}')
        if len(seen) != len(a['variants']):
            c.violate('encoding', ty, f'only {len(seen)} of {len(a["variants"])} variants have an encoding')
    c.count('types', n, len(ENCODED) + len(WRAPPED))


def variants(c, ty):
    """{name: (tag, variant index)} the strict type of an enum declares."""
    v = const(c, 'strict_encoding::types::StrictSum', ty, 'ALL_VARIANTS')
    f = c.impl_fn('strict_encoding::types::StrictSum', ty, 'variant_name')
    if v is None or f is None:
        return {}
    while v.op not in ('array', 'tuple') and v.a and isinstance(v.a[0], Term):
        v = v.a[0]
    tags = {lit(e.a[1]): lit(e.a[0]) for e in v.a if e.op == 'tuple'}
    if len(tags) != len(v.a) or len(set(tags.values())) != len(v.a):
        c.violate('variants', ty, 'the variant names or tags are not unique')
    a = c.prog().adt_by_path(ty)
    an, outs = c.analyse(f)
    self = an.params(f)[0]
    names = {}
    for o in outs:
        st = path_state(an, o)
        if o.kind == 'ret' and st is not None:
            for k, x in enumerate(a['variants']):
                if an.decide(st, eqi(an.discr(self), int(x['discr']))) != 0:
                    names.setdefault(k, set()).add(lit(o.value))
    r = {}
    for k, x in enumerate(a['variants']):
        n = names.get(k, set())
        if len(n) != 1 or not n <= set(tags):
            c.violate('variants', ty, f'the variant {x["n"]} is called {n}, declared are {sorted(tags)}')
            continue
        n = n.pop()
        if n in r:
            c.violate('variants', ty, f'two variants are called {n}')
        r[n] = (tags[n], k)
    c.ob('variants', ty, str(r))
    return r


def cname(t):
    """the string constant in a term"""
    for x in subterms(t):
        if x.op == 'str':
            return x.a[0]
        if x.op == 'cparam':
            for y in x.a:
                if isinstance(y, str) and '"' in y:
                    return y.split('"')[1]
    return None


RD = ST + 'ReadStruct::read_field', ST + 'ReadTuple::read_field'


@prop('C38', 'Strict decoding inverts strict encoding',
      'Every path of every decoder is evaluated with the reads uninterpreted; what it builds must be the read values in the places the encoder took them from.', floor=14)
def c38(c):
    c.rule('a decoder succeeds exactly when all its reads succeed, and then the i-th value read is the i-th declared field of the result')
    c.rule('a union decoder builds the variant whose name the tag stands for; each variant can be decoded; names and tags are unique')
    c.rule('an enum is written as the byte From<T> for u8 gives, and TryFrom<u8> maps exactly these bytes back')
    n = 0
    for ty in ENCODED + WRAPPED:
        f = c.impl_fn(ST + 'StrictDecode', ty, 'strict_decode')
        if f is None:
            continue
        n += 1
        a = c.prog().adt_by_path(ty)
        try:
            an, outs = c.analyse(f)
        except (Unsupported, RecursionError) as e:
            c.violate('decoding', ty, f'could not be analysed: {e}')
            continue
        names = variants(c, ty) if a['kind'] == 'enum' else {}
        decl = None
        if a['kind'] != 'enum' and not a['variants'][0]['fields'][0]['n'].isdigit():
            decl = const(c, 'strict_encoding::types::StrictStruct', ty, 'ALL_FIELDS')
        decl = None if decl is None else sorted(str(lit(x)) for x in inner(decl).a)
        seen = set()
        for o in outs:
            st = path_state(an, o)
            if st is None:
                continue
            reads = [e for e in o.events if e.kind == 'call' and e.key in RD + (ST + 'TypedRead::read_union', ST + 'TypedRead::read_newtype')]
            terms = [call(e.key, *e.args) for e in reads]
            failed = [t for t in terms if an.decide(st, eqi(an.discr(t), 0)) != 1]
            known = [k for k in names if any(eq_name(q, k) is True for q in o.conds)]
            excl = [k for k in names if any(eq_name(q, k) is False for q in o.conds)]
            if names and not known and len(excl) == len(names):
                continue                        # no tag stands for another name
            if o.kind != 'ret':
                c.violate('decoding', ty, f'decoding panics: {describe(o)[:300]}')
                continue
            v = o.value
            isok = an.decide(st, eqi(an.discr(v), 0))
            if isok is None and len(terms) == 1 and v is terms[0] and reads[0].key.endswith('read_newtype'):
                g = c.impl_fn('amplify::traits::wrapper::Wrapper', ty, 'from_inner')
                seen.add(0)
                c.ob('decoding', ty, 'read_newtype')
                if g is None:
                    c.violate('decoding', ty, 'read_newtype without from_inner')
                    continue
                an2, outs2 = c.analyse(g)
                x = an2.params(g)[0]
                for o2 in outs2:
                    if o2.kind != 'ret' or o2.value.op != 'adt' or list(o2.value.a[2:]) != [x]:
                        c.violate('decoding', ty, f'from_inner gives {show(o2.value)[:200]}')
                continue
            if isok != (0 if failed else 1):
                c.violate('decoding', ty, ('decoding succeeds although a read has failed: ' if failed else
                                           'decoding fails although every read has succeeded: ') + describe(o)[:400])
                continue
            if failed:
                continue
            fs = [(e, t) for e, t in zip(reads, terms) if e.key in RD]
            v = field(v, 0, 0)
            if v.op != 'adt' or v.a[0] != ty:
                c.violate('decoding', ty, f'the result is {show(v)[:300]}, not built from the values read')
                continue
            k = v.a[1]
            if names:
                want = known or [x for x in names if x not in excl]
                if len(want) != 1:
                    c.violate('decoding', ty, f'the variant {a["variants"][k]["n"]} is built whichever of {want} was written')
                    continue
                if names[want[0]][1] != k:
                    c.violate('decoding', ty, f'{want[0]} is decoded as {a["variants"][k]["n"]}')
            seen.add(k)
            decls = a['variants'][k]['fields']
            real = [i for i, x in enumerate(decls) if 'PhantomData' not in tystr(x['ty'])]
            got = [v.a[2 + i] for i in real]
            if len(got) != len(fs) or any(not same(an, st, g, field(t, 0, 0)) for g, (_, t) in zip(got, fs)):
                c.violate('decoding', ty, f'the fields {[decls[i]["n"] for i in real]} are {[show(g)[:200] for g in got]}')
                continue
            nm = [cname(e.args[-1]) if e.key == RD[0] else None for e, _ in fs]
            c.ob('decoding', ty, f'{a["variants"][k]["n"]} {nm}')
            for x, i in zip(nm, real):
                if x is not None and x.replace('_', '').lower() != decls[i]['n'].replace('_', '').lower():
                    c.violate('decoding', ty, f'{x} is read into {decls[i]["n"]}')
            if decl is not None and any(nm) and sorted(map(str, nm)) != decl:
                c.violate('decoding', ty, f'the fields read are {nm}, the type declares {decl}: the reader panics')
        if len(seen) != len(a['variants']):
            c.violate('decoding', ty, f'only {len(seen)} of {len(a["variants"])} variants can be decoded')
    c.count('types', n, len(ENCODED) + len(WRAPPED))
    for ty in (CV + 'merkle::NodeBranching', CV + 'mpc::atoms::Method'):
        enum_codes(c, ty)


def inner(v):
    while v.op not in ('array', 'tuple') and v.a and isinstance(v.a[0], Term):
        v = v.a[0]
    return v


def eq_name(cond, name):
    """Whether the condition says that the name of the variant read is (True) or is not (False) name."""
    t, (k, v) = cond
    if t.op not in ('eq', 'ne') or 'as_str' not in repr(t) and 'read_union' not in repr(t):
        return None
    if not any(x.op == 'call' and x.a[0].endswith('read_union') for x in subterms(t)) or cname(t) != name:
        return None
    return ((k == 'eq') == bool(v if k == 'eq' else 1 in v)) == (t.op == 'eq')


def enum_codes(c, ty):
    """The byte of each value of a field-less enum, both ways."""
    a = c.prog().adt_by_path(ty)
    vs = variants(c, ty)
    if a is None:
        return
    to = c.impl_fn('core::convert::From', 'u8', 'from', targs=[ty])
    of = c.impl_fn('core::convert::TryFrom', ty, 'try_from', targs=['u8'])
    if to is None or of is None:
        return
    an, outs = c.analyse(to)
    x = an.params(to)[0]
    codes = {}
    for k, v in enumerate(a['variants']):
        for o in outs:
            st = path_state(an, o)
            if st is None:
                continue
            for s in an.assume(st.copy(), eqi(an.discr(x), int(v['discr'])), 1):
                if o.kind != 'ret':
                    c.violate('codes', ty, f'no byte for {v["n"]}')
                    continue
                w = [b for b in range(256) if an.decide(s, eqi(o.value, b)) == 1]
                codes.setdefault(k, set()).update(w or [None])
    c.ob('codes', ty, str(codes))
    for n, (tag, k) in vs.items():
        if codes.get(k) != {tag}:
            c.violate('codes', ty, f'{n} is written as {codes.get(k)}, the type declares {tag}')
    an, outs = c.analyse(of)
    x = an.params(of)[0]
    for b in range(256):
        want = [k for n, (tag, k) in vs.items() if tag == b]
        for o in outs:
            m = {x: INT(b)}
            s = State()
            if path_state(an, o) is None or not all(learn(an, s, (subst(t, m), f)) for t, f in o.conds):
                continue
            if o.kind != 'ret':
                c.violate('codes', ty, f'reading {b} panics')
                continue
            v = subst(o.value, m)
            d = an.decide(s, eqi(an.discr(v), 0))
            if d != (1 if want else 0):
                c.violate('codes', ty, f'reading the byte {b} gives {show(v)[:200]}')
            elif want:
                v = field(v, 0, 0)
                i = [i for i, q in enumerate(a['variants']) if an.decide(s, eqi(an.discr(v), int(q['discr']))) == 1]
                if i != want:
                    c.violate('codes', ty, f'the byte {b} is read as {[a["variants"][q]["n"] for q in i]}, written for {a["variants"][want[0]]["n"]}')
    for tr, it, key in (('StrictEncode', 'strict_encode', 'write_enum'), ('StrictDecode', 'strict_decode', 'read_enum')):
        f = c.impl_fn(ST + tr, ty, it)
        if f is None:
            continue
        an, outs = c.analyse(f)
        for o in outs:
            v = o.value if o.kind == 'ret' else None
            ps = an.params(f)
            good = v is not None and v.op == 'call' and v.a[0].split('<')[0].endswith(key) \
                and (key == 'read_enum' or v.a[-1] is ps[0])
            c.ob(it, ty, describe(o)[:120])
            if not good:
                c.violate(it, ty, f'{describe(o)[:300]}; required: {key} of the value')


