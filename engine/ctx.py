"""One run of one property: the obligations it discharges and what it reports."""
import json, os, sys, time
from terms import *
from load import Program, strip_generics, tystr
from absint import Analysis, Unsupported, showcond
from spec import *


def fn_name(fn):
    """How a function is named in reports and in known findings (no line numbers, no generic arguments)."""
    s = fn['d'][1]
    if not s.startswith('<'):
        return strip_generics(s)
    depth = 0
    for i, ch in enumerate(s):
        depth += (ch == '<') - (ch == '>' and s[i - 1] != '-')
        if depth == 0:
            break
    return '<' + ' as '.join(strip_generics(x) for x in s[1:i].split(' as ', 1)) + '>' + strip_generics(s[i + 1:])


class Obligation:
    def __init__(self, key, where, detail):
        self.key, self.where, self.detail = key, where, detail


class Ctx:
    def __init__(self, prop, dumps, tier):
        self.prop, self.dumps, self.tier = prop, dumps, tier
        self.progs = {}
        self.violations = []
        self.obligations = []
        self.fns = set()
        self.counts = {}
        self.notes = []
        self.rules = []

    # ------------------------------------------------------------ programs
    def prog(self, flavour='release', config='all'):
        k = (config, flavour)
        if k not in self.progs:
            self.progs[k] = Program.load(self.dumps(config), config, flavour)
        return self.progs[k]

    def find(self, path, flavour='release', config='all', need=True):
        """The function with a body whose generic-stripped path is given."""
        p = self.prog(flavour, config)
        r = [f for full, l in p.by_path.items() for f in l
             if 'body' in f and (strip_generics(full) == path or full == path)]
        if len(r) == 1:
            return r[0]
        if need:
            self.violate('anchor:' + path, path, f'{len(r)} functions named {path} were found, 1 expected')
        return None

    def impl_fn(self, trait, selfty, item, flavour='release', config='all', need=True, targs=None):
        """The method `item` of the impl of `trait` for the type printed as selfty (generic-stripped)."""
        p = self.prog(flavour, config)
        r = []
        for i in p.impls:
            if not i.get('trait') or strip_generics(i['trait'][1]) != trait:
                continue
            s = strip_generics(tystr(i['targs'][0])) if i.get('targs') else ''
            if s != selfty:
                continue
            if targs is not None and [strip_generics(tystr(x)) for x in i['targs'][1:]] != targs:
                continue
            for it in i['items']:
                if it.get('n', it['d'][1].split('::')[-1]) == item or it['d'][1].split('::')[-1] == item:
                    f = p.fns.get(it['d'][0])
                    if f is not None and 'body' in f:
                        r.append(f)
        if len(r) == 1:
            return r[0]
        if need:
            self.violate(f'anchor:{trait}:{selfty}:{item}', f'{selfty}::{item}',
                         f'{len(r)} implementations of {trait}::{item} for {selfty} were found, 1 expected')
        return None

    # ------------------------------------------------------------ reporting
    def ob(self, key, where, detail=''):
        self.obligations.append(Obligation(key, where, detail))

    def violate(self, key, where, msg):
        if any(v['key'] == key and v['where'] == where and v['message'] == msg for v in self.violations):
            return
        self.violations.append({'key': key, 'where': where, 'message': msg})

    def count(self, name, n, floor):
        """A class of program constructs that was examined; fewer than were confirmed by hand is an error."""
        self.counts[name] = n
        if n < floor:
            self.violate('floor:' + name, name, f'only {n} instances of "{name}" were found, at least {floor} exist')

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    # ------------------------------------------------------------ analysis
    def analyse(self, fn, opaque=(), flavour='release', config='all'):
        an = Analysis(self.prog(flavour, config), opaque)
        outs = an.analyse(fn)
        for f in an.stats['fns']:
            self.fns.add(f)
        an.outs = outs
        return an, outs

    def conform(self, fn, spec, what, opaque=(), flavours=('release', 'debug'), panics=None, config='all',
                unit_ok=True, check=None, key=None):
        """Every path of fn yields the outcome spec(q, *params) requires.
        panics: None (a panic must be required by the spec), 'any' (allowed anywhere), or pred(an, out)."""
        if fn is None:
            return
        name = fn_name(fn)
        key = key or what
        for fl in flavours:
            f = fn
            if fl != 'release' or config != 'all':
                f = self.prog(fl, config).fns.get(fn['d'][0])
                if f is None:
                    f = next((x for l in [self.prog(fl, config).by_path.get(fn['d'][1], [])] for x in l if 'body' in x), None)
                if f is None:
                    self.violate('anchor:' + key, name, f'not found in the {config}/{fl} program')
                    continue
            try:
                an, outs = self.analyse(f, opaque, fl, config)
            except (Unsupported, RecursionError) as e:
                self.violate(key, name, f'could not be analysed: {e}')
                continue
            ps = an.params(f)
            nret = 0
            for o in outs:
                self.check_path(an, f, o, spec, ps, what, key, panics, unit_ok, fl)
                nret += o.kind == 'ret'
            if not nret:
                self.violate(key, name, 'no path returns')
            if check:
                check(an, f, outs)

    def check_path(self, an, fn, o, spec, ps, what, key, panics, unit_ok, fl):
        name = fn_name(fn)
        st = path_state(an, o)
        if st is None:
            return
        if o.kind == 'panic' and panics is not None and (panics == 'any' or panics(an, o)):
            return
        try:
            res = explore(an, st, lambda q: spec(q, *ps), o)
        except Mismatch as m:
            self.violate(key, name, f'{what}: on the path [{describe(o)}] {m}')
            return
        for st2, r, q in res:
            self.ob(key, name, describe(o))
            if r is ANY:
                continue
            kind, val = r[0], r[1] if len(r) > 1 else ANY
            finals = r[2] if len(r) > 2 else {}
            if kind != o.kind:
                got = f'panics {o.value}' if o.kind == 'panic' else f'returns {show(o.value)}'
                self.violate(key, name, f'{what}: on the path [{describe(o)}] it {got[:300]}, '
                             f'required: {"a panic" if kind == "panic" else "return " + (show(val) if isinstance(val, Term) else "a value")}'[:900])
                return
            if kind == 'panic':
                continue
            try:
                if not same(an, st2, val, o.value, unit_ok):
                    extra = ' & '.join(showcond(c) for c in st2.conds[len(path_state(an, o).conds):])
                    self.violate(key, name, f'{what}: on the path [{describe(o)}]{" with " + extra if extra else ""} it returns '
                                 f'{show(o.value)[:400]} where {show(val)[:400]} is required')
                    return
                for pi, want in finals.items():
                    p = ps[pi]
                    got = o.finals.get(p.a[1], p)
                    if not same(an, st2, want, got, unit_ok):
                        self.violate(key, name, f'{what}: on the path [{describe(o)}] `{p.a[1]}` is left as '
                                     f'{show(got)[:400]} where {show(want)[:400]} is required')
                        return
            except Mismatch as m:
                self.violate(key, name, f'{what}: on the path [{describe(o)}] {m}')
                return
