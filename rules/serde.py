from rules import prop
from rules.commit import CV
from rules.encoding import cname
from spec import *
from ctx import *

SER, DE = 'serde::ser::', 'serde::de::'


def tail(t):
    return t.a[0].split('<')[0].split('::')[-1] if t.op == 'call' else None


def text(t):
    return cname(t)


def written_form(an, st, v, self):
    """(kind, variant name, variant index, [(name, value)]) of what a serialization wrote."""
    k = tail(v)
    if k == 'serialize' and len(v.a) == 3:
        return 'inner', None, None, [(None, v.a[1])]
    if k == 'serialize_unit_variant':
        return 'unit', text(v.a[4]), v.a[3], []
    if k == 'serialize_newtype_struct':
        return 'newtype', None, None, [(None, v.a[3])]
    if k == 'serialize_newtype_variant':
        return 'newtype', text(v.a[4]), v.a[3], [(None, v.a[5])]
    if k in ('serialize_unit_struct', 'serialize_unit'):
        return 'unit', None, None, []
    if k != 'end':
        return None
    out, t = [], v.a[1]
    while True:
        if t.op == 'out':
            t = t.a[1]
        elif t.op == 'field':
            t = t.a[0]
        elif tail(t) == 'serialize_field':
            out.append((text(t.a[2]) if len(t.a) == 4 else None, t.a[-1]))
            t = t.a[1]
        elif tail(t) in ('serialize_struct', 'serialize_tuple_struct'):
            return 'fields', None, None, out[::-1]
        elif tail(t) in ('serialize_struct_variant', 'serialize_tuple_variant'):
            return 'fields', text(t.a[4]), t.a[3], out[::-1]
        else:
            return None


def forms(c, f, ty, a):
    """{variant: form} of Serialize::serialize, with fields as indices"""
    r = {}
    try:
        an, outs = c.analyse(f)
    except (Unsupported, RecursionError) as e:
        c.violate('serialize', ty, f'could not be analysed: {e}')
        return None
    self = an.params(f)[0]
    for o in outs:
        st = path_state(an, o)
        if st is None or o.kind != 'ret':
            continue
        if o.value.op == 'adt' and o.value.a[1] == 1:
            continue                            # the serializer has failed
        w = written_form(an, st, o.value, self)
        if w is None:
            c.violate('serialize', ty, f'the serialized form is not recognised: {show(o.value)[:300]}')
            continue
        for k, v in enumerate(a['variants']):
            if len(a['variants']) > 1 and an.decide(st, eqi(an.discr(self), int(v['discr']))) == 0:
                continue
            real = [i for i, x in enumerate(v['fields']) if 'PhantomData' not in tystr(x['ty'])]
            fs = []
            for n, x in w[3]:
                i = [i for i in real if same(an, st, x, field(self, k, i))]
                if not i and 'PhantomData' in str(x):
                    continue
                fs.append((n, i[0] if len(i) == 1 else None))
            c.ob('serialize', ty, f'{v["n"]}: {w[0]} {w[1]} {fs}')
            if sorted(i if i is not None else -1 for _, i in fs if True) != real:
                miss = [v['fields'][i]['n'] for i in real if i not in [j for _, j in fs]]
                c.violate('serialize', ty, f'{v["n"]} is written as {[(n, show(x)[:60]) for n, x in w[3]]}' + (f': {miss} lost or changed' if miss else ''))
                continue
            if len({n for n, _ in fs}) != len(fs) and fs and fs[0][0] is not None:
                c.violate('serialize', ty, f'two fields of {v["n"]} have one name: {fs}')
            new = w[0], w[1], w[2], fs
            if r.setdefault(k, new) != new:
                c.violate('serialize', ty, f'{v["n"]} has two serialized forms')
    if len(r) != len(a['variants']) and not c.violations:
        c.violate('serialize', ty, f'only {len(r)} of {len(a["variants"])} variants have a serialized form')
    return r


def variant_of(t):
    # the key types of different variants may have one path, so their declarations can not be looked up by path
    return INT(t.a[1]) if t.op == 'adt' else t


def names_read(c, f):
    """{text: index} of a field visitor"""
    an, outs = c.analyse(f)
    r = {}
    for o in outs:
        if o.kind != 'ret' or path_state(an, o) is None or an.decide(path_state(an, o), eqi(an.discr(o.value), 0)) != 1:
            continue
        k = variant_of(field(o.value, 0, 0))
        n = [text(t) for t, (w, v) in o.conds if t.op == 'eq' and w == 'eq' and v == 1 and text(t) is not None]
        if k.op == 'int' and len(n) == 1:
            r[n[0]] = k.a[0]
    return r


def numbers_read(c, f):
    an, outs = c.analyse(f)
    x = an.params(f)[1]
    r = {}
    for o in outs:
        st = path_state(an, o)
        if o.kind == 'ret' and st is not None and an.decide(st, eqi(an.discr(o.value), 0)) == 1:
            k = variant_of(field(o.value, 0, 0))
            for t, (w, v) in o.conds:
                if t is x and w == 'eq' and k.op == 'int':
                    r[v] = k.a[0]
    return r


def seq_read(c, f, ty):
    """{variant: [field the i-th element goes to]}"""
    an, outs = c.analyse(f)
    r = {}
    for o in outs:
        st = path_state(an, o)
        if o.kind != 'ret' or st is None or an.decide(st, eqi(an.discr(o.value), 0)) != 1:
            continue
        v = field(o.value, 0, 0)
        els = [call(e.key, *e.args) for e in o.events if e.kind == 'call' and e.key.endswith('SeqAccess::next_element')]
        if v.op != 'adt' or v.a[0] != ty or any(an.decide(st, eqi(an.discr(field(e, 0, 0)), 1)) != 1 for e in els):
            continue
        r[v.a[1]] = [[j for j in range(len(v.a) - 2) if same(an, st, v.a[2 + j], field(field(e, 0, 0), 1, 0))] for e in els]
    return r


def map_read(c, f, ty):
    """{variant: {key index: field its value goes to}}"""
    an, outs = c.analyse(f)
    slots = {}
    for lp in an.loops.values():
        for b in lp.body:
            ks = [v for t, (w, v) in b.conds if w == 'eq' and t.op == 'discr' and t.a[0].op == 'field' and has(t, 'next_key')
                  and t.a[0].a[0].op == 'field' and t.a[0].a[0].a[0].op == 'call']
            for key, (_, new) in b.updates.items():
                if new.op == 'adt' and new.a[1] == 1 and len(new.a) == 3 and new.a[2].op == 'field' and tail(new.a[2].a[0]) == 'next_value':
                    for k in ks:
                        slots.setdefault(str(lp.init[key][1]), set()).add(k)
    r = {}
    for o in outs:
        st = path_state(an, o)
        if o.kind != 'ret' or st is None or an.decide(st, eqi(an.discr(o.value), 0)) != 1:
            continue
        v = field(o.value, 0, 0)
        if v.op != 'adt' or v.a[0] != ty:
            continue
        for j, x in enumerate(v.a[2:]):
            if x.op == 'field' and x.a[1] == 1:
                for k in slots.get(str(x.a[0]), ()):
                    r.setdefault(v.a[1], {}).setdefault(k, set()).add(j)
    return r


def has(t, s):
    return any(x.op == 'call' and x.a[0].endswith(s) for x in subterms(t))


@prop('C41', 'The serde form of a value carries each field once and is read back in place',
      'The calls each Serialize implementation makes are matched with the names, positions and places its Deserialize counterpart reads.', floor=20)
def c41(c):
    c.rule('every serializable type writes each field of the active variant exactly once, under unique names')
    c.rule('deserialization puts the value of the name, and of the position, under which a field is written into that field, for every variant')
    p = c.prog()
    n = 0
    for i in p.impls:
        if not i.get('trait') or i['trait'][1] != SER + 'Serialize' or i['crate'] not in ('commit_verify', 'client_side_validation', 'single_use_seals'):
            continue
        ty = strip_generics(tystr(i['targs'][0]))
        a = p.adt_by_path(ty)
        if not a or ty == CV + 'ReservedBytes':
            continue
        f = next((p.fns[it['d'][0]] for it in i['items'] if it['d'][1].endswith('::serialize') and it['d'][0] in p.fns), None)
        g = c.impl_fn(DE + 'Deserialize', ty, 'deserialize')
        if f is None or g is None:
            continue
        n += 1
        w = forms(c, f, ty, a)
        if not w:
            continue
        try:
            read_back(c, p, g, ty, a, w)
        except (Unsupported, RecursionError) as e:
            c.violate('deserialize', ty, f'could not be analysed: {e}')
    c.count('types', n, 12)


def read_back(c, p, g, ty, a, w):
    an, outs = c.analyse(g)
    pre = g['d'][1] + '::'
    parts = {}
    for l in p.by_path.values():
        for x in l:
            if 'body' in x and x['d'][1].lstrip('<').startswith(pre):
                parts.setdefault(x['d'][1].split('::')[-1], []).append(x)
    if all(v[0] == 'inner' for v in w.values()):
        d = an.params(g)[0]
        for o in outs:
            v = o.value
            st = path_state(an, o)
            if st is None:
                continue
            r = [t for t, _ in o.conds if t.op == 'discr' and tail(t.a[0]) == 'deserialize']
            ok_ = o.kind == 'ret' and v.op == 'adt' and len(r) == 1 and (
                v.a[1] == 1 if an.decide(st, eqi(r[0], 0)) != 1 else v.a[1] == 0 and same(an, st, field(v.a[2], 0, w[0][3][0][1]), field(r[0].a[0], 0, 0)))
            c.ob('deserialize', ty, describe(o)[:120])
            if not ok_:
                c.violate('deserialize', ty, f'written as its only field, but read as {describe(o)[:300]}')
        return
    names = [names_read(c, x) for x in parts.get('visit_str', [])]
    nums = [numbers_read(c, x) for x in parts.get('visit_u64', [])]
    seqs, maps = {}, {}
    for x in parts.get('visit_seq', []):
        seqs.update(seq_read(c, x, ty))
    for x in parts.get('visit_map', []):
        maps.update(map_read(c, x, ty))
    enum = enum_read(c, parts.get('visit_enum', []), ty)
    for k, (kind, vname, vidx, fs) in w.items():
        vn = a['variants'][k]['n']
        if vname is not None:
            m = [x[vname] for x in names if vname in x]
            q = [x[vidx.a[0]] for x in nums if vidx.op == 'int' and vidx.a[0] in x and len(x) >= len(w)]
            got = {j: enum.get(j) for j in m}
            c.ob('deserialize', ty, f'{vname}: {got}')
            if not m:
                c.violate('deserialize', ty, f'the variant {vn} is written as {vname}, which can not be read')
                continue
            if nums and m[0] not in q:
                c.violate('deserialize', ty, f'the variant {vn} is written with the number {show(vidx)}, which is read as another one')
            e = enum.get(m[0])
            if e is None or (kind, k) != e[:2] and not (kind == 'fields' and e[0] == 'fields' and e[2] == [x for x, _ in fs]):
                c.violate('deserialize', ty, f'{vname} is written for {vn} but read as {e}')
        if kind == 'fields':
            if len(fs) != len(seqs.get(k, [])) or any(j not in s for (_, j), s in zip(fs, seqs[k])):
                c.violate('deserialize', ty, f'the fields of {vn} are written in the order {[j for _, j in fs]} and read into {seqs.get(k)}')
            if fs and fs[0][0] is not None:
                c.ob('deserialize', ty, f'{vn} {maps.get(k)}')
                if not any(all(x in m and maps.get(k, {}).get(m[x]) == {j} for x, j in fs) for m in names):
                    c.violate('deserialize', ty, f'the fields of {vn} are written as {fs}; the names read are {names}, their values go to {maps.get(k)}')
        elif kind == 'newtype' and vname is None:
            c.violate('deserialize', ty, 'newtype structs are not analysed')


def enum_read(c, fs, ty):
    """{key index: (kind, variant)}"""
    r = {}
    for f in fs:
        an, outs = c.analyse(f)
        for o in outs:
            st = path_state(an, o)
            if o.kind != 'ret' or st is None:
                continue
            ks = [v for t, (w, v) in o.conds if w == 'eq' and t.op == 'discr' and t.a[0].op == 'field' and t.a[0].a[0].op == 'field' and has(t, 'EnumAccess::variant')]
            v = o.value
            cs = [t for t, _ in o.conds if t.op == 'discr' and tail(t.a[0]) in ('unit_variant', 'newtype_variant')]
            key = ks[0] if len(ks) == 1 else 0
            if tail(v) in ('struct_variant', 'tuple_variant'):
                r[key] = 'fields', None, [text(x) for x in v.a[2].a]
            elif cs and v.op == 'adt' and v.a[1] == 0 and v.a[2].op == 'adt' and v.a[2].a[0] == ty:
                kind = tail(cs[0].a[0]).split('_')[0]
                if kind == 'unit' or v.a[2].a[2] is field(cs[0].a[0], 0, 0):
                    r[key] = kind, v.a[2].a[1]
    return r
