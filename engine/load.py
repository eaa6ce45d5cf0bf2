"""Loads mirdump output: one Program per (configuration, flavour)."""
import json, os, re, glob


def strip_generics(s):
    """core::option::Option::<T>::map -> core::option::Option::map"""
    out, depth, i = [], 0, 0
    while i < len(s):
        c = s[i]
        if c == '<':
            # a leading '<' of a qualified path is kept balanced elsewhere
            if depth == 0 and out[-2:] == [':', ':']:
                out = out[:-2]
            depth += 1
        elif c == '>' and not (i and s[i - 1] == '-'):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


class Program:
    def __init__(self):
        self.fns = {}      # hash -> fn record (with 'crate')
        self.adts = {}     # hash -> adt record
        self.impls = []
        self.traits = {}
        self.misc = []
        self.unsafes = []
        self.crates = {}
        self.by_path = {}

    @staticmethod
    def load(d, config, flavour, crates=None):
        p = Program()
        for f in sorted(glob.glob(os.path.join(d, f'{config}.*.{flavour}.json'))):
            with open(f) as fh:
                j = json.load(fh)
            if crates is not None and j['crate'] not in crates:
                continue
            p.add(j)
        p.index()
        return p

    def add(self, j):
        c = j['crate']
        self.crates[c] = {'cfg': j['cfg'], 'proc_macro': j['proc_macro'], 'bin': j['bin']}
        for fn in j['fns']:
            fn['crate'] = c
            self.fns[fn['d'][0]] = fn
        for a in j['adts']:
            old = self.adts.get(a['d'][0])
            if old is None or a['local']:
                a['crate'] = c
                self.adts[a['d'][0]] = a
        for i in j['impls']:
            i['crate'] = c
            self.impls.append(i)
        for t in j['traits']:
            t['crate'] = c
            self.traits[t['d'][0]] = t
        for m in j['misc']:
            m['crate'] = c
            self.misc.append(m)
        for u in j['unsafe']:
            u['crate'] = c
            self.unsafes.append(u)

    def index(self):
        self.by_path = {}
        for fn in self.fns.values():
            self.by_path.setdefault(fn['d'][1], []).append(fn)
        self.trait_item = {}   # trait item hash -> (trait, item)
        for t in self.traits.values():
            for it in t['items']:
                self.trait_item[it['d'][0]] = (t, it)
        self.impl_of_fn = {}
        for i in self.impls:
            for it in i['items']:
                self.impl_of_fn[it['d'][0]] = (i, it)

    def adt_by_path(self, path):
        for a in self.adts.values():
            if strip_generics(a['d'][1]) == path:
                return a
        return None


def tystr(t):
    if isinstance(t, str):
        return t
    k = t['k']
    if k in ('prim', 'num'):
        return t['n']
    if k == 'adt':
        n = strip_generics(t['d'][1])
        if n == 'digest::core_api::wrapper::CoreWrapper':
            for w in ('Sha256', 'Ripemd160', 'Sha512'):
                if w in str(t['a']):
                    return w
        return n + ('<' + ','.join(map(tystr, t['a'])) + '>' if t['a'] else '')
    if k == 'ref':
        return '&' + ('mut ' if t['m'] else '') + tystr(t['t'])
    if k == 'ptr':
        return '*' + tystr(t['t'])
    if k == 'slice':
        return '[' + tystr(t['t']) + ']'
    if k == 'array':
        return '[' + tystr(t['t']) + ';' + tystr(t['n']) + ']'
    if k == 'tuple':
        return '(' + ','.join(map(tystr, t['a'])) + ')'
    if k in ('closure', 'fndef', 'opaque'):
        return k + ':' + t['d'][1]
    if k == 'proj':
        return 'proj:' + strip_generics(t['d'][1]) + '<' + ','.join(map(tystr, t['a'])) + '>'
    if k in ('param', 'cparam'):
        return t['n']
    if k == 'cval':
        return t['v']
    return '?' + t.get('s', '')


# ---------------------------------------------------------------- printing
def show_place(p):
    s = f'_{p[0]}'
    for e in p[1]:
        if e == '*':
            s = f'(*{s})'
        elif e[0] == 'f':
            s += f'.{e[1]}'
        elif e[0] == 'd':
            s += f'@{e[1]}'
        elif e[0] == 'i':
            s += f'[_{e[1]}]'
        else:
            s += str(e)
    return s


def show_op(o):
    if o[0] in ('copy', 'move'):
        return show_place(o[1])
    if o[0] == 'const':
        c = o[1]
        t = c['ty']
        if t['k'] == 'fndef':
            r = ''
            if 'inst' in c:
                r = ' => ' + c['inst']['d'][1]
            return f"fn {t['d'][1]}[{','.join(map(tystr, t['a']))}]{r}"
        return 'const ' + str({k: v for k, v in c.items() if k != 'ty'}) + ':' + tystr(t)
    return str(o)


def show_rv(r):
    if r[0] == 'use':
        return show_op(r[1])
    if r[0] in ('ref', 'reborrow'):
        return ('&mut ' if r[1] else '&') + show_place(r[2])
    if r[0] == 'cast':
        return f'{show_op(r[2])} as {tystr(r[4])} ({r[1]})'
    if r[0] == 'bin':
        return f'{r[1]}({show_op(r[2])}, {show_op(r[3])})'
    if r[0] == 'un':
        return f'{r[1]}({show_op(r[2])})'
    if r[0] == 'discr':
        return 'discr ' + show_place(r[1])
    if r[0] == 'agg':
        k = r[1]
        n = k[0] if k[0] != 'adt' else strip_generics(k[1][1]) + f'@{k[2]}'
        if k[0] == 'closure':
            n = 'closure ' + k[1][1]
        return n + '(' + ', '.join(map(show_op, r[2])) + ')'
    return str(r)


def show_body(b):
    out = []
    for i, t in enumerate(b['locals']):
        out.append(f'  let _{i}: {tystr(t)}')
    for n, p in b['names']:
        out.append(f'  debug {n} => {show_place(p)}')
    for i, bb in enumerate(b['blocks']):
        if bb['c']:
            continue
        out.append(f'  bb{i}:')
        for s in bb['s']:
            if s[0] == '=':
                out.append(f'    {show_place(s[1])} = {show_rv(s[2])}')
            else:
                out.append('    ' + str(s))
        t = bb['t']
        if t[0] == 'call':
            out.append(f"    {show_place(t[3])} = call {show_op(t[1])}({', '.join(map(show_op, t[2]))}) -> {t[4]}")
        elif t[0] == 'switch':
            out.append(f'    switch {show_op(t[1])} {t[2]} else {t[3]}')
        elif t[0] == 'assert':
            out.append(f'    assert {show_op(t[1])}=={t[2]} {t[3]} -> {t[4]}')
        else:
            out.append('    ' + str(t))
    return '\n'.join(out)


if __name__ == '__main__':
    import sys
    p = Program.load(sys.argv[1], sys.argv[2], sys.argv[3])
    for path, l in sorted(p.by_path.items()):
        if len(sys.argv) > 4:
            if sys.argv[4] in path:
                for fn in l:
                    print('fn', path, fn.get('vis'), fn['span'], fn.get('generics'))
                    if 'body' in fn:
                        print(show_body(fn['body']))
        else:
            print(path)
