"""Abstract interpretation of MIR: value numbering over Herbrand terms, with the
reachable paths of a function partitioned by the branch facts they establish.
In-workspace callees and closures are analysed in the caller's context, loops
are summarised by a fixpoint (everything a loop changes is generalised to a
loop value), everything else is an uninterpreted operation of its arguments."""
from terms import *
from load import strip_generics, tystr, Program
import models as M

MAXPATHS = 6000


class Unsupported(Exception):
    pass


class State:
    __slots__ = ('cells', 'know', 'conds', 'events', 'bnd')

    def __init__(self):
        self.cells, self.know, self.conds, self.events, self.bnd = {}, {}, [], [], {}

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.know = dict(self.know)
        s.bnd = dict(self.bnd)
        s.conds = list(self.conds)
        s.events = list(self.events)
        return s


class Event:
    __slots__ = ('kind', 'key', 'args', 'span', 'fn', 'targs', 'ncond')

    def __init__(self, kind, key, args, span, fn, targs=()):
        self.kind, self.key, self.args, self.span, self.fn, self.targs = kind, key, args, span, fn, targs
        self.ncond = 0

    def __repr__(self):
        return f"{self.kind}:{self.key if not isinstance(self.key, str) else short(self.key)}({', '.join(map(show, self.args))})"


class Loop:
    def __init__(self, id, fn, span):
        self.id, self.fn, self.span = id, fn, span
        self.init = {}      # name -> term before the loop
        self.body = []      # list of BodyPath
        self.exits = []     # list of (kind, conds)
        self.names = {}
        self.cellnames = {}
        self.nevents = 0
        self.src = None


def parts(name, g, b):
    """the components of a variable which holds a tuple (an accumulator of several values)"""
    if g.op == 'tuple' and b is not None and b.op == 'tuple' and len(g.a) == len(b.a):
        for i, (x, y) in enumerate(zip(g.a, b.a)):
            yield from parts(f'{name}.{i}', x, y)
    else:
        yield name, g, b


class BodyPath:
    __slots__ = ('conds', 'events', 'updates', 'value')

    def __init__(self, conds, events, updates, value=None):
        self.conds, self.events, self.updates, self.value = conds, events, updates, value


class Outcome:
    __slots__ = ('kind', 'value', 'conds', 'events', 'finals', 'know')

    def __repr__(self):
        c = ' & '.join(showcond(x) for x in self.conds)
        r = f"[{c}] => {self.kind} {show(self.value) if isinstance(self.value, Term) else self.value}"
        for k, v in self.finals.items():
            r += f'\n      final {k} = {show(v)}'
        for e in self.events:
            r += f'\n      {e!r}'
        return r


def shrink(lo, hi, out):
    while lo in out:
        lo += 1
    while hi is not None and hi in out and hi >= lo:
        hi -= 1
    return lo, hi


def showcond(c):
    t, (k, v) = c
    if k == 'eq':
        if t.op in BOOLOPS or t.op in ('more',):
            return show(t) if v == 1 else '!' + show(t)
        return f'{show(t)}=={v}'
    return f'{show(t)}!={sorted(v)}'


class Frame:
    _n = 0

    def __init__(self, fn, env, body, stack):
        Frame._n += 1
        self.id = Frame._n
        self.fn, self.env, self.body, self.stack = fn, env, body, stack
        self.names = {}


class Analysis:
    def __init__(self, prog, opaque=(), nondet=('rand', 'getrandom', 'std::time', 'std::env')):
        self.p = prog
        self.opaque = set(opaque)
        self.nondet = nondet
        self.loops = {}
        self.panics = []
        self.ctors = {}
        self.dom = {}
        self.stats = {'fns': set(), 'calls': 0, 'paths': 0, 'blocks': 0, 'uninterpreted': set()}
        self.seq = 0
        self.cfg_cache = {}
        self.promoted_stack = []
        for a in prog.adts.values():
            base = strip_generics(a['d'][1])
            for i, v in enumerate(a['variants']):
                if a['kind'] == 'enum':
                    self.ctors[base + '::' + v['n']] = (base, i, a)
                else:
                    self.ctors[base] = (base, 0, a)
        self.adt_paths = {strip_generics(a['d'][1]): a for a in prog.adts.values()}
        self.impl_items = {}
        self.trait_hash = {}
        for i in prog.impls:
            for it in i['items']:
                if 'of' in it:
                    self.impl_items.setdefault(it['of'][0], []).append((i, it))
                    self.trait_hash[strip_generics(it['of'][1])] = it['of'][0]
        self._frames = {}
        self.root = None

    def trait_item_hash(self, path):
        return self.trait_hash.get(path)

    # ------------------------------------------------------------ types
    def subst_ty(self, t, env):
        if not env or isinstance(t, str):
            return t
        k = t['k']
        if k in ('param', 'cparam'):
            return env.get(t['n'], t)
        if k in ('adt', 'closure', 'fndef', 'opaque', 'tuple'):
            if not t['a']:
                return t
            return {**t, 'a': [self.subst_ty(x, env) for x in t['a']]}
        if k == 'proj':
            r = {**t, 'a': [self.subst_ty(x, env) for x in t['a']]}
            return self.norm_proj(r)
        if k in ('ref', 'ptr', 'slice'):
            return {**t, 't': self.subst_ty(t['t'], env)}
        if k == 'array':
            return {**t, 't': self.subst_ty(t['t'], env), 'n': self.subst_ty(t['n'], env)}
        return t

    def norm_proj(self, t):
        c = self.find_impl(t['d'][0], t['a'])
        if c:
            imp, it, env = c
            if 'ty' in it:
                return self.subst_ty(it['ty'], env)
        return t

    def rigid(self, t):
        if isinstance(t, str):
            return True
        return t['k'] in ('param', 'proj', 'opaque', 'other', 'cparam')

    def unify(self, pat, act, names, env):
        if isinstance(pat, str) or isinstance(act, str):
            return pat == act
        if pat['k'] in ('param', 'cparam') and pat['n'] in names:
            if pat['n'] in env:
                return tystr(env[pat['n']]) == tystr(act)
            env[pat['n']] = act
            return True
        if pat['k'] != act['k']:
            return False
        k = pat['k']
        if k in ('prim', 'num'):
            return pat['n'] == act['n']
        if k in ('adt', 'fndef', 'closure', 'opaque', 'proj'):
            return pat['d'][0] == act['d'][0] and len(pat['a']) == len(act['a']) and all(
                self.unify(x, y, names, env) for x, y in zip(pat['a'], act['a']))
        if k == 'tuple':
            return len(pat['a']) == len(act['a']) and all(
                self.unify(x, y, names, env) for x, y in zip(pat['a'], act['a']))
        if k in ('ref', 'ptr'):
            return pat['m'] == act['m'] and self.unify(pat['t'], act['t'], names, env)
        if k == 'slice':
            return self.unify(pat['t'], act['t'], names, env)
        if k == 'array':
            return self.unify(pat['t'], act['t'], names, env) and self.unify(pat['n'], act['n'], names, env)
        return tystr(pat) == tystr(act)

    def find_impl(self, item_hash, targs):
        """Local impl item implementing the trait item for the given trait args."""
        for imp, it in self.impl_items.get(item_hash, ()):
            pats = imp.get('targs', [])
            if len(targs) < len(pats):
                continue
            env = {}
            if all(self.unify(x, y, imp.get('generics', []), env) for x, y in zip(pats, targs)):
                return imp, it, env
        return None

    # ------------------------------------------------------------ facts
    def decide(self, st, t):
        if t.op == 'int':
            return t.a[0]
        if t.op == 'not':
            r = self.decide(st, t.a[0])
            return None if r is None else 1 - r
        if t.op == 'and':
            rs = [self.decide(st, x) for x in t.a]
            if any(r == 0 for r in rs):
                return 0
            if all(r == 1 for r in rs):
                return 1
            return None
        if t.op == 'eq' and t.a[1].op == 'int':
            a, k = t.a[0], t.a[1].a[0]
            f = st.know.get(a)
            if f:
                if f[0] == 'eq':
                    return 1 if f[1] == k else 0
                if k in f[1]:
                    return 0
            b = st.bnd.get(a)
            if b and (k < b[0] or b[1] is not None and k > b[1]):
                return 0
            if b and b[0] == b[1] == k:
                return 1
        if t.op == 'lt' and t.a[1].op == 'int':
            k = t.a[1].a[0]
            f = st.know.get(t.a[0])
            if f and f[0] == 'eq':
                return 1 if f[1] < k else 0
            b = st.bnd.get(t.a[0])
            if b:
                if b[1] is not None and b[1] < k:
                    return 1
                if b[0] >= k:
                    return 0
        f = st.know.get(t)
        if f:
            if f[0] == 'eq':
                return f[1]
            if t.op in BOOLOPS or t.op == 'more':
                if 0 in f[1]:
                    return 1
                if 1 in f[1]:
                    return 0
        return None

    def learn(self, st, t, kind, v, record=True):
        """Adds the fact t == v / t not in v. False when contradictory."""
        if not self.learn1(st, t, kind, v, record):
            return False
        if t.op == 'discr':       # facts about a variant hold for the variants equal to it
            for e, f in list(st.know.items()):
                if e.op == 'eq' and f == ('eq', 1) and (e.a[0] is t or e.a[1] is t):
                    u = e.a[1] if e.a[0] is t else e.a[0]
                    if u.op == 'discr' and not self.spread(st, t, u):
                        return False
        elif t.op == 'eq' and kind == 'eq' and v == 1 and t.a[0].op == 'discr' and t.a[1].op == 'discr':
            return self.spread(st, t.a[0], t.a[1]) and self.spread(st, t.a[1], t.a[0])
        return True

    def spread(self, st, t, u):
        f, g = st.know.get(t), st.know.get(u)
        if f is None or f == g:
            return True
        if f[0] == 'ne' and g and (g[0] == 'ne' and f[1] <= g[1] or g[0] == 'eq' and g[1] not in f[1]):
            return True
        return self.learn1(st, u, f[0], f[1], False)

    def learn1(self, st, t, kind, v, record=True):
        f = st.know.get(t)
        if kind == 'eq':
            if f:
                if f[0] == 'eq':
                    return f[1] == v
                if v in f[1]:
                    return False
            b = st.bnd.get(t)
            if b and (v < b[0] or b[1] is not None and v > b[1]):
                return False
            st.know[t] = ('eq', v)
            if t.op == 'lt' and t.a[1].op == 'int':
                x, k = t.a[0], t.a[1].a[0]
                lo, hi = st.bnd.get(x, (0, None))
                if v == 1:
                    hi = k - 1 if hi is None else min(hi, k - 1)
                else:
                    lo = max(lo, k)
                fx = st.know.get(x)
                if fx and fx[0] == 'ne':
                    lo, hi = shrink(lo, hi, fx[1])
                if hi is not None and lo > hi:
                    return False
                st.bnd[x] = (lo, hi)
            if record:
                st.conds.append((t, ('eq', v)))
            return True
        vs = frozenset(v)
        if f:
            if f[0] == 'eq':
                return f[1] not in vs
            if vs <= f[1]:
                return True
            vs = vs | f[1]
        d = self.dom.get(t)
        if d and vs < d and len(d - vs) == 1:
            st.know[t] = ('eq', next(iter(d - vs)))
        elif d and d <= vs:
            return False
        else:
            st.know[t] = ('ne', vs)
        if t in st.bnd or t.op in ('len', 'param', 'cparam', 'bin', 'ceil2'):
            lo, hi = shrink(*st.bnd.get(t, (0, None)), vs)
            if hi is not None and lo > hi:
                return False
            st.bnd[t] = (lo, hi)
        if record:
            f2 = st.know[t]
            st.conds.append((t, f2 if f2[0] == 'eq' else ('ne', frozenset(v))))
        return True

    def assume(self, st, t, val, record=True):
        """States in which boolean t has value val (0/1)."""
        d = self.decide(st, t)
        if d is not None:
            return [st] if d == val else []
        if t.op == 'not':
            return self.assume(st, t.a[0], 1 - val, record)
        if t.op == 'and':
            if val == 1:
                ss = [st]
                for x in t.a:
                    ss = [s2 for s in ss for s2 in self.assume(s, x, 1, record)]
                return ss
            out, pre = [], [st]
            for x in t.a:
                nxt = []
                for s in pre:
                    out.extend(self.assume(s.copy(), x, 0, record))
                    nxt.extend(self.assume(s.copy(), x, 1, record))
                pre = nxt
            return out
        if t.op == 'eq' and t.a[1].op == 'int':
            ok_ = self.learn(st, t.a[0], 'eq' if val else 'ne', t.a[1].a[0] if val else [t.a[1].a[0]], record)
            return [st] if ok_ else []
        return [st] if self.learn(st, t, 'eq', val, record) else []

    def fork(self, st, t):
        """[(state, 0/1)] for boolean t."""
        d = self.decide(st, t)
        if d is not None:
            return [(st, d)]
        out = []
        for v in (1, 0):
            for s in self.assume(st.copy(), t, v):
                out.append((s, v))
        return out

    # ------------------------------------------------------------ memory
    def read_cell(self, st, cell):
        v = st.cells.get(cell)
        if v is None:
            if cell[0] == 'd':
                return cell[1]
            return mk('undef', str(cell))
        return v

    def proj_read(self, v, e):
        if e[0] == 'f':
            return field(v, e[1], e[2])
        if e[0] == 'i':
            return M.index(self, v, e[1])
        raise Unsupported(str(e))

    def read(self, st, cell, path):
        v = self.read_cell(st, cell)
        for e in path:
            v = self.proj_read(v, e)
        return v

    def write(self, st, cell, path, val, span=None, fr=None):
        base = self.read_cell(st, cell)
        st.cells[cell] = self.upd(base, path, val)
        if cell[0] == 'd' or cell[0] == 'p':
            ev = Event('store', self.place_term(cell), (self.path_term(path), val), span,
                       fr.fn['d'][1] if fr else None)
            st.events.append(ev)

    def place_term(self, cell):
        return cell[1]

    def path_term(self, path):
        return mk('path', *[mk('pe', *e) for e in path])

    def upd(self, base, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == 'f':
            return with_field(base, e[1], e[2], self.upd(field(base, e[1], e[2]), path[1:], val))
        inner = self.upd(M.index(self, base, e[1]), path[1:], val)
        if base.op == 'array' and e[1].op == 'int' and e[1].a[0] < len(base.a):
            l = list(base.a)
            l[e[1].a[0]] = inner
            return mk('array', *l)
        return mk('upd', base, e[1], inner)

    def ty_step(self, ty, e):
        if ty is None or isinstance(ty, str):
            return None
        if e == '*':
            if ty['k'] in ('ref', 'ptr'):
                return ty['t']
            if ty['k'] == 'adt' and ty['a']:
                return ty['a'][0]
            return None
        if e[0] == 'd':
            return ('v', ty, e[1])
        return None

    def resolve(self, st, fr, place):
        """-> (cell, path, type)"""
        cell = ('f', fr.id, place[0])
        path = ()
        variant = 0
        ty = fr.body['locals'][place[0]]
        if fr.env:
            ty = self.subst_ty(ty, fr.env)
        for e in place[1]:
            if e == '*':
                v = self.read(st, cell, path)
                if v.op == 'ptr':
                    cell, path = v.a[0], v.a[1]
                else:
                    cell, path = ('d', v), ()
                ty = self.ty_step(ty, e)
                variant = 0
            elif e[0] == 'd':
                variant = e[1]
            elif e[0] == 'f':
                if ty is not None and ty['k'] == 'adt':
                    ap = strip_generics(ty['d'][1])
                    if ap in M.TRANSPARENT and e[1] == 0:
                        ty = ty['a'][0] if ty['a'] else None
                        variant = 0
                        continue
                    a = self.p.adts.get(ty['d'][0])
                    nty = None
                    if a:
                        try:
                            nty = a['variants'][variant]['fields'][e[1]]['ty']
                        except IndexError:
                            nty = None
                        if isinstance(nty, str):
                            if ap in (OPTION, 'alloc::boxed::Box') and ty['a']:
                                nty = ty['a'][0]
                            elif ap == RESULT and len(ty['a']) == 2:
                                nty = ty['a'][variant]
                            elif ap == CFLOW and len(ty['a']) == 2:
                                nty = ty['a'][1 - variant]
                            else:
                                nty = None
                        elif nty is not None and ty['a']:
                            gs = a.get('generics')
                            if gs and len(gs) == len(ty['a']):
                                nty = self.subst_ty(nty, dict(zip(gs, ty['a'])))
                    elif ap == OPTION and ty['a']:
                        nty = ty['a'][0]
                    ty = nty
                elif ty is not None and ty['k'] == 'tuple' and e[1] < len(ty['a']):
                    ty = ty['a'][e[1]]
                else:
                    ty = None
                path = path + (('f', variant, e[1]),)
                variant = 0
            elif e[0] == 'i':
                path = path + (('i', self.read(st, ('f', fr.id, e[1]), ())),)
                ty = None
            elif e[0] == 'ci':
                path = path + (('i', INT(e[1]) if not e[2] else mk('fromend', INT(e[1]))),)
                ty = None
            elif e[0] == 'sub':
                base = self.read(st, cell, path)
                v = mk('subslice', base, INT(e[1]), INT(e[2]), INT(1 if e[3] else 0))
                cell, path = ('d', v), ()
                ty = None
            else:
                raise Unsupported('projection ' + str(e))
        return cell, path, ty

    # ------------------------------------------------------------ freezing
    def freeze(self, st, t, memo=None):
        if memo is None:
            memo = {}
        if t in memo:
            return memo[t]
        if t.op == 'ptr':
            r = self.freeze(st, self.read(st, t.a[0], t.a[1]), memo)
        elif t.op in M.ITEROPS:
            r = self.freeze(st, M.collect_term(self, st, t), memo)
        elif t.op == 'int' or not t.a:
            r = t
        else:
            na = tuple(self.freeze_any(st, y, memo) for y in t.a)
            r = t if na == t.a else rebuild(t.op, na)
        memo[t] = r
        return r

    def freeze_any(self, st, y, memo):
        if isinstance(y, Term):
            return self.freeze(st, y, memo)
        if isinstance(y, tuple) and any(isinstance(z, (Term, tuple)) for z in y):
            return tuple(self.freeze_any(st, z, memo) for z in y)
        return y

    def mutptrs(self, st, t, out, seen):
        """mutable pointers reachable from a term that is handed to unknown code"""
        if t in seen:
            return
        seen.add(t)
        if t.op == 'ptr':
            if t.a[2]:
                out.append(t)
            else:
                self.mutptrs(st, self.read(st, t.a[0], t.a[1]), out, seen)
            return
        if t.op in ('closure', 'adt', 'tuple', 'array') or t.op in M.ITEROPS:
            for y in t.a:
                if isinstance(y, Term):
                    self.mutptrs(st, y, out, seen)

    # ------------------------------------------------------------ constants
    def const(self, st, fr, c):
        ty = self.subst_ty(c['ty'], fr.env)
        k = c['k']
        if k == 'int':
            return self.scalar(ty, int(c['v']))
        if k == 'str':
            return mk('str', c['v'])
        if k == 'zst':
            if ty['k'] == 'fndef':
                return mk('fnref', ty['d'][0], ty['d'][1], HashableTy.of(ty['a']),
                          HashableTy.of(c.get('inst')))
            if ty['k'] == 'adt':
                return adt(strip_generics(ty['d'][1]), 0)
            if ty['k'] == 'closure':
                return mk('closure', ty['d'][0], HashableTy.of(ty['a']))
            if ty['k'] == 'array':
                return mk('array')
            return UNIT
        if k in ('refbytes', 'bytes', 'slice'):
            t2 = ty['t'] if k == 'refbytes' and ty['k'] == 'ref' else ty
            return self.from_bytes(t2, c['v'])
        if k == 'tyconst':
            cc = c['c']
            cc = self.subst_ty(cc, fr.env)
            if cc['k'] == 'cval':
                return self.scalar(ty, int(cc['v']))
            return mk('cparam', tystr(cc))
        if k == 'uneval':
            if 'promoted' in c:
                fn = self.p.fns.get(c['d'][0])
                if fn:
                    return self.eval_const_body(st, fr, fn, fn['promoted'][c['promoted']], fr.env)
            targs = [self.subst_ty(x, fr.env) for x in c['a']]
            d = c.get('res', c['d'])
            fn = self.p.fns.get(d[0])
            if 'res' not in c or fn is None:
                f = self.find_impl(c['d'][0], targs)
                if f and f[1]['d'][0] in self.p.fns:
                    fn = self.p.fns[f[1]['d'][0]]
                    return self.eval_const_body(st, fr, fn, fn['body'], f[2])
            if fn is not None and 'body' in fn and fn['kind'] != 'AnonConst':
                is_trait_default = fn.get('assoc') == 'trait'
                if not (is_trait_default and targs and self.rigid(targs[0])):
                    env = self.bind(fn, targs) if 'res' not in c else {}
                    if 'val' in c and c['val'].get('k') in ('int', 'str') and ty['k'] != 'adt':
                        return self.const(st, fr, {**c['val'], 'ty': c['ty']})
                    return self.eval_const_body(st, fr, fn, fn['body'], env)
            if 'val' in c and c['val'].get('k') not in ('indirect', 'ptr'):
                return self.const(st, fr, {**c['val'], 'ty': c['ty']})
            return mk('assoc', strip_generics(c['d'][1]), ','.join(tystr(x) for x in targs))
        return mk('const', tystr(ty), str({x: c[x] for x in c if x != 'ty'}))

    def const_ty(self, c):
        """the value of a const generic argument"""
        if isinstance(c, dict) and c['k'] == 'cval':
            return INT(int(c['v']))
        return mk('cparam', tystr(c))

    def scalar(self, ty, v):
        if ty['k'] in ('prim', 'num'):
            return INT(v)
        if ty['k'] == 'adt':
            p = strip_generics(ty['d'][1])
            if p in M.TRANSPARENT or p in M.NUMNEW:
                return INT(v)
            a = self.p.adts.get(ty['d'][0])
            if a and a['kind'] == 'enum' and all(not x['fields'] for x in a['variants']):
                for i, x in enumerate(a['variants']):
                    if int(x['discr']) == v:
                        return adt(p, i)
            if a and a['kind'] == 'struct' and len(a['variants'][0]['fields']) == 1:
                f = a['variants'][0]['fields'][0]['ty']
                if not isinstance(f, str):
                    return adt(p, 0, self.scalar(f, v))
        return mk('cscalar', tystr(ty), v)

    def from_bytes(self, ty, hexs):
        b = bytes.fromhex(hexs)
        if ty['k'] in ('num', 'prim') and ty['n'] not in ('str',):
            return INT(int.from_bytes(b, 'little'))
        if ty['k'] == 'adt' and len(b) <= 16:
            r = self.scalar(ty, int.from_bytes(b, 'little'))
            if r.op != 'cscalar':
                return r
        if ty['k'] == 'array':
            e = ty['t']
            if not isinstance(e, str) and e['k'] in ('num', 'prim'):
                sz = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'u32': 4, 'u64': 8}.get(e['n'], 0)
                if sz and len(b) <= 64:
                    return mk('array', *[INT(int.from_bytes(b[i:i + sz], 'little')) for i in range(0, len(b), sz)])
            if len(b) == 0:
                return mk('array')
        if ty['k'] == 'slice':
            e = ty['t']
            if not isinstance(e, str) and e['k'] == 'num' and e['n'] == 'u8':
                return mk('array', *[INT(x) for x in b])
        return mk('cbytes', tystr(ty), hexs)

    def eval_const_body(self, st, fr, fn, body, env):
        f2 = Frame(fn, env or {}, body, fr.stack + (('const', fn['d'][0], id(body)),))
        outs = self.run(st, f2, 0)
        rets = [o for o in outs if o[0] == 'ret']
        if len(rets) != 1:
            return mk('constfn', fn['d'][1])
        s2 = rets[0][1]
        # constants have no effects; keep the cells so that references into them stay valid
        for k, v in s2.cells.items():
            if k not in st.cells:
                st.cells[k] = v
        return rets[0][2]

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        if o[0] in ('copy', 'move'):
            cell, path, ty = self.resolve(st, fr, o[1])
            return self.read(st, cell, path)
        if o[0] == 'const':
            return self.const(st, fr, o[1])
        if o[0] == 'rtcheck':
            return FALSE
        raise Unsupported('operand ' + o[0])

    def optype(self, fr, o):
        if o[0] == 'const':
            return self.subst_ty(o[1]['ty'], fr.env)
        st = None
        t = self.subst_ty(fr.body['locals'][o[1][0]], fr.env)
        for e in o[1][1]:
            if e == '*':
                t = self.ty_step(t, e)
            elif e[0] == 'f' and t is not None and t['k'] == 'tuple' and e[1] < len(t['a']):
                t = t['a'][e[1]]
            else:
                return None
            if t is None:
                return None
        return t

    def numty(self, t):
        return t['n'] if t and t['k'] in ('num', 'prim') else '?'

    def rvalue(self, st, fr, rv, span):
        k = rv[0]
        if k == 'use':
            # the deref of a Box is elaborated into a copy of the Box: keep its place
            o = rv[1]
            if o[0] == 'copy':
                cell, path, ty = self.resolve(st, fr, o[1])
                if ty is not None and ty['k'] == 'adt' and strip_generics(ty['d'][1]) == 'alloc::boxed::Box':
                    return mk('ptr', cell, path, 1)
                return self.read(st, cell, path)
            return self.operand(st, fr, o)
        if k in ('ref', 'reborrow'):
            cell, path, _ = self.resolve(st, fr, rv[2])
            if cell[0] == 'd' and not path and cell not in st.cells:
                # a reference to the target of an opaque reference is that reference
                return cell[1]
            return mk('ptr', cell, path, 1 if rv[1] else 0)
        if k == 'rawptr':
            cell, path, _ = self.resolve(st, fr, rv[2])
            return mk('ptr', cell, path, 1 if rv[1] else 0)
        if k == 'cast':
            x = self.operand(st, fr, rv[2])
            kind = rv[1]
            frm, to = self.subst_ty(rv[3], fr.env), self.subst_ty(rv[4], fr.env)
            if kind == 'BoxDerefTransmute' and rv[2][0] in ('copy', 'move'):
                # the content of a Box lives where the Box does
                if x.op == 'ptr' and to.get('t', {}).get('k') != 'ref':
                    return x
                cell, path, _ = self.resolve(st, fr, rv[2][1])
                return mk('ptr', cell, path, 1)
            if kind == 'int':
                return self.int_cast(st, x, frm, to)
            if kind == 'BoxDerefTransmute' or kind.startswith('coerce'):
                return x
            if kind in ('transmute', 'Transmute'):
                return mk('transmute', tystr(to), x)
            return mk('castk', kind, tystr(to), x)
        if k == 'bin':
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b)
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                t = self.optype(fr, rv[2])
                if t is None or t['k'] == 'prim':
                    return neg(a)
                return mk('un', 'Not', a)
            if rv[1] == 'PtrMetadata':
                return M.length(self, self.freeze(st, a))
            return mk('un', rv[1], a)
        if k == 'discr':
            cell, path, ty = self.resolve(st, fr, rv[1])
            return self.discr(self.read(st, cell, path), ty)
        if k == 'agg':
            xs = [self.operand(st, fr, o) for o in rv[2]]
            kind = rv[1]
            if kind[0] == 'tuple':
                return tup(*xs)
            if kind[0] == 'array':
                return mk('array', *xs)
            if kind[0] == 'adt':
                p = strip_generics(kind[1][1])
                if p in M.TRANSPARENT and len(xs) >= 1:
                    return xs[0]
                return adt(p, kind[2], *xs)
            if kind[0] == 'closure':
                return mk('closure', kind[1][0], HashableTy.of([self.subst_ty(x, fr.env) for x in kind[2]]), *xs)
            raise Unsupported('aggregate')
        if k == 'repeat':
            n = self.subst_ty(rv[2], fr.env)
            return mk('repeat', self.operand(st, fr, rv[1]), tystr(n))
        raise Unsupported('rvalue ' + str(rv[:2]))

    def int_cast(self, st, x, frm, to):
        if frm['k'] == 'adt' or x.op == 'adt' and len(x.a) == 2:
            # a fieldless enum cast to its discriminant
            d = self.discr(x, frm)
            return cast(d, '?', self.numty(to)) if d.op != 'int' else d
        return cast(x, self.numty(frm), self.numty(to))

    def binop(self, st, op, a, b):
        a, b = self.deref(st, a), self.deref(st, b)
        if op.endswith('WithOverflow'):
            return tup(binop(op[:-12], a, b), mk('overflow', op[:-12], a, b))
        if op == 'Eq':
            return eqraw(a, b)
        if op == 'Ne':
            return neg(eqraw(a, b))
        if op == 'Lt':
            return lt(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Le':
            return neg(lt(b, a))
        if op == 'Ge':
            return neg(lt(a, b))
        if op == 'Cmp':
            return mk('cmp', a, b)
        return binop(op, a, b)

    def deref(self, st, v):
        while v.op == 'ptr':
            v = self.read(st, v.a[0], v.a[1])
        return v

    def discr(self, v, ty=None):
        if v.op == 'adt':
            a = self.adt_paths.get(v.a[0])
            if a and v.a[1] < len(a['variants']):
                return INT(int(a['variants'][v.a[1]]['discr']))
            return INT(v.a[1])
        while v.op == 'with':
            v = v.a[0]    # a field of the variant it is in was written
        if v.op == 'adt':
            return self.discr(v, ty)
        d = mk('discr', v)
        if ty is not None and not isinstance(ty, tuple) and ty['k'] == 'adt' and d not in self.dom:
            a = self.p.adts.get(ty['d'][0])
            if a and a['kind'] == 'enum':
                self.dom[d] = frozenset(int(x['discr']) for x in a['variants'])
        return d

    # ------------------------------------------------------------ control flow
    def cfg(self, body):
        r = self.cfg_cache.get(id(body))
        if r:
            return r
        succ = {}
        for i, bb in enumerate(body['blocks']):
            t = bb['t']
            if t[0] == 'goto':
                s = [t[1]]
            elif t[0] == 'switch':
                s = [x[1] for x in t[2]] + [t[3]]
            elif t[0] == 'drop':
                s = [t[1]]
            elif t[0] == 'call':
                s = [t[4]] if t[4] is not None else []
            elif t[0] == 'assert':
                s = [t[4]]
            else:
                s = []
            succ[i] = s
        # reachable, dominators (simple iterative)
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(succ[m])))
                    break
            else:
                order.append(n)
                stack.pop()
        rpo = order[::-1]
        pred = {n: [] for n in rpo}
        for n in rpo:
            for m in succ[n]:
                pred[m].append(n)
        dom = {n: set(rpo) for n in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                d = set.intersection(*[dom[p] for p in pred[n]]) | {n}
                if d != dom[n]:
                    dom[n] = d
                    ch = True
        loops = {}
        for n in rpo:
            for m in succ[n]:
                if m in dom[n]:
                    region = loops.setdefault(m, {m})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x not in region:
                            region.add(x)
                            st.extend(pred[x])
        r = (succ, loops, dom)
        self.cfg_cache[id(body)] = r
        return r

    def run(self, st, fr, bb, region=None, header=None):
        """-> list of ('ret', st, value) ('panic', st, info) ('back', st, None) ('exit', st, bb)"""
        outs = []
        work = [(st, bb, True)]
        blocks = fr.body['blocks']
        loops = self.cfg(fr.body)[1]
        while work:
            st, bb, first = work.pop()
            if region is not None and not (first and bb == header):
                if bb == header:
                    outs.append(('back', st, None))
                    continue
                if bb not in region:
                    outs.append(('exit', st, bb))
                    continue
            if bb in loops and bb != header:
                for o in self.do_loop(st, fr, bb, loops[bb]):
                    if o[0] == 'exit':
                        work.append((o[1], o[2], False))
                    else:
                        outs.append(o)
                continue
            self.stats['blocks'] += 1
            if len(work) + len(outs) > MAXPATHS:
                raise Unsupported('too many paths in ' + fr.fn['d'][1])
            b = blocks[bb]
            for s in b['s']:
                if s[0] == '=':
                    v = self.rvalue(st, fr, s[2], s[3])
                    cell, path, _ = self.resolve(st, fr, s[1])
                    if cell[0] == 'f' and not path:
                        st.cells[cell] = v
                    else:
                        self.write(st, cell, path, v, s[3], fr)
                elif s[0] == 'setd':
                    raise Unsupported('SetDiscriminant')
            t = b['t']
            k = t[0]
            if k == 'goto' or k == 'drop':
                work.append((st, t[1], False))
            elif k == 'return':
                outs.append(('ret', st, st.cells.get(('f', fr.id, 0), UNIT)))
            elif k == 'switch':
                d = self.deref(st, self.operand(st, fr, t[1]))
                for s2, tb in self.switch(st, d, [(int(v), x) for v, x in t[2]], t[3], t[4], blocks):
                    work.append((s2, tb, False))
            elif k == 'assert':
                c = self.operand(st, fr, t[1])
                exp = 1 if t[2] else 0
                for s2 in self.assume(st, c, exp, record=False):
                    work.append((s2, t[4], False))
            elif k == 'call':
                for o in self.do_call(st, fr, t):
                    if o[0] == 'ok':
                        if t[4] is None:
                            outs.append(('panic', o[1], 'diverged'))
                        else:
                            work.append((o[1], t[4], False))
                    else:
                        outs.append(o)
            elif k in ('unreachable', 'dead'):
                pass
            else:
                raise Unsupported('terminator ' + k)
        return outs

    def switch(self, st, d, arms, other, ty, blocks):
        isbool = ty['k'] == 'prim' and ty['n'] == 'bool'
        unreachable = lambda b: blocks[b]['t'][0] == 'unreachable' and not blocks[b]['s']
        if d.op == 'int':
            for v, b in arms:
                if v == d.a[0]:
                    return [(st, b)]
            return [(st, other)]
        out = []
        if isbool or d.op in BOOLOPS:
            t_arm = dict(arms)
            for s, v in self.fork(st, d):
                b = t_arm.get(v, other)
                if not unreachable(b):
                    out.append((s, b))
            return out
        if d.op == 'discr' and d.a[0].op == 'cmp':
            # Ordering: -1, 0, 1 as i8 bit patterns
            a, b = d.a[0].a
            return self.switch_cmp(st, a, b, arms, other, unreachable)
        f = st.know.get(d)
        if f and f[0] == 'eq':
            for v, b in arms:
                if v == f[1]:
                    return [(st, b)]
            return [(st, other)]
        for v, b in arms:
            if unreachable(b):
                continue
            s = st.copy()
            if self.learn(s, d, 'eq', v):
                out.append((s, b))
        if not unreachable(other):
            s = st.copy()
            if self.learn(s, d, 'ne', [v for v, _ in arms]):
                out.append((s, other))
        return out

    def switch_cmp(self, st, a, b, arms, other, unreachable):
        out = []
        m = dict(arms)
        for s, v in self.fork(st, eqraw(a, b)):
            if v:
                cases = [(s, 0)]
            else:
                cases = [(s2, 255 if w else 1) for s2, w in self.fork(s, lt(a, b))]
            for s2, o in cases:
                tb = m.get(o, other)
                if not unreachable(tb):
                    out.append((s2, tb))
        return out

    # ------------------------------------------------------------ loops
    def new_loop(self, fr, span):
        lid = len(self.loops) + 1
        lp = Loop(lid, fr.fn['d'][1] if fr else '', span)
        self.loops[lid] = lp
        return lp

    def cellname(self, fr, cell):
        if cell[0] == 'f':
            f = self.frames_by_id(cell[1], fr)
            if f is not None:
                for n, p in f.body['names']:
                    if p[0] == cell[2] and not p[1]:
                        return n
            return f'_{cell[1]}_{cell[2]}'
        if cell[0] == 'p':
            return 'arg:' + show(cell[1])
        if cell[0] == 'd':
            return 'deref:' + show(cell[1])
        return str(cell)

    def loopname(self, fr, cell, lp):
        """cellname, made unique among the cells of the loop (shadowed and inlined variables share names)"""
        n = lp.cellnames.get(cell)
        if n is None:
            base = n = self.cellname(fr, cell)
            k = 2
            while n in lp.cellnames.values():
                n, k = f"{base}'{k}", k + 1
            lp.cellnames[cell] = n
        return n

    def frames_by_id(self, id, fr):
        return self._frames.get(id)

    def gen(self, g, b, lp, name):
        """Least generalisation of the value at the loop head and at a back edge."""
        if g is b:
            return g
        if g.op == 'lv' and g.a[0] == lp.id:
            return g
        if b.op == 'itr' and b.a[1] == 'at' and b.a[0] is g:
            g = mk('itr', g, 'at', 0)    # an iterator held in a variable, advanced directly
        if g.op in M.ITEROPS and b.op in M.ITEROPS:
            r = M.gen_iter(self, g, b, lp, name)
            if r is not None:
                return r
        if b.op in ('remain', 'take', 'skip'):
            r = M.gen_remain(self, g, b, lp, name)
            if r is not None:
                return r
        if g.op == 'with' or b.op == 'with':
            def chain(x):
                c = {}
                while x.op == 'with':
                    c.setdefault((x.a[1], x.a[2]), x.a[3])
                    x = x.a[0]
                return x, c
            gb, gc = chain(g)
            bb, bc = chain(b)
            if gb is bb:
                r = gb
                for k in sorted(set(gc) | set(bc)):
                    x = gc.get(k, field(gb, *k))
                    y = bc.get(k, field(gb, *k))
                    r = with_field(r, k[0], k[1], self.gen(x, y, lp, f'{name}.{k[1]}'))
                return r
        if g.op == 'adt' and b.op == 'adt' and g.a[:2] == b.a[:2] and len(g.a) > 2:
            a = self.adt_paths.get(g.a[0])
            if a and a['kind'] == 'struct':
                return adt(g.a[0], g.a[1], *[self.gen(x, y, lp, f'{name}.{i}')
                                             for i, (x, y) in enumerate(zip(g.a[2:], b.a[2:]))])
        if g.op == 'tuple' and b.op == 'tuple' and len(g.a) == len(b.a):
            return tup(*[self.gen(x, y, lp, f'{name}.{i}') for i, (x, y) in enumerate(zip(g.a, b.a))])
        v = mk('lv', lp.id, name)
        if v not in lp.names:
            lp.names[v] = g
        return v

    def generalise(self, fr, G, backs, lp):
        """One round: returns True when G changed."""
        changed = False
        for B in backs:
            for cell, b in B.cells.items():
                if cell in G.cells:
                    g = G.cells[cell]
                elif cell[0] == 'd':
                    if contains(cell[1], lambda x: x.op in ('el', 'lv', 'pos') and lp.id in x.a or x.op == 'ptr'):
                        continue
                    g = cell[1]
                else:
                    continue
                if g is b:
                    continue
                n = self.gen(g, b, lp, self.loopname(fr, cell, lp))
                if n is not g or cell not in G.cells:
                    G.cells[cell] = n
                    changed = True
        return changed

    def concrete_iter(self, st, fr):
        for cell, v in st.cells.items():
            if cell[0] == 'f' and cell[1] == fr.id and v.op in M.ITEROPS:
                b = v
                while b.op in M.ITEROPS and b.op != 'itr':
                    b = b.a[0]
                if b.op == 'itr' and b.a[1] == 'at' and M.concrete_src(b.a[0]) is not None:
                    return True
        return False

    def unroll(self, st, fr, h, region):
        live, outs = [st.copy()], []
        for rounds in range(12):
            nxt = []
            for s in live:
                for o in self.run(s, fr, h, region, h):
                    if o[0] == 'back':
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            live = nxt
            if not live:
                return outs
            if len(live) > 64:
                return None
        return None

    def do_loop(self, st, fr, h, region):
        if self.concrete_iter(st, fr):
            r = self.unroll(st, fr, h, region)
            if r is not None:
                return r
        lp = self.new_loop(fr, fr.body['blocks'][h]['l'])
        n_ev, n_co = len(st.events), len(st.conds)
        st.events.append(Event('loop', lp.id, (), lp.span, lp.fn))
        G = st
        for rounds in range(12):
            nl = len(self.loops)
            outs = self.run(G.copy(), fr, h, region, h)
            backs = [o[1] for o in outs if o[0] == 'back']
            G2 = G.copy()
            if not self.generalise(fr, G2, backs, lp):
                break
            G = G2
        else:
            raise Unsupported('loop fixpoint did not settle in ' + fr.fn['d'][1])
        return self.finish_loop(fr, lp, G, st, outs, n_ev, n_co)

    def counting(self, lp, G, st, outs, n_ev, n_co):
        """while i < n { … i += 1 } is a walk over 0..n (over the elements of x when n is its length)"""
        backs = [o[1] for o in outs if o[0] == 'back']
        if not backs:
            return
        for cell, g in list(G.cells.items()):
            if g.op != 'lv' or g.a[0] != lp.id or not is_int(st.cells.get(cell, g), 0):
                continue
            nxt = {B.cells.get(cell) for B in backs}
            if len(nxt) != 1 or None in nxt:
                continue
            b = nxt.pop()
            if b is not binop('Add', g, INT(1)):
                continue
            firsts = [o[1].conds[n_co] if len(o[1].conds) > n_co else None for o in outs]
            if None in firsts or len({t for t, _ in firsts}) != 1:
                continue
            guard = firsts[0][0]
            if guard.op != 'lt' or guard.a[0] is not g or contains(guard.a[1], lambda x: x.op in ('lv', 'el') and lp.id in x.a):
                continue
            ends = [f for (_, f), o in zip(firsts, outs)]
            if any(f not in (('eq', 0), ('eq', 1)) for f in ends) or any(f == ('eq', 0) for f, o in zip(ends, outs) if o[0] == 'back'):
                continue
            lps = [self.loops.get(e.key) for o in outs for e in o[1].events[n_ev + 1:] if e.kind == 'loop']
            if any(l is None or self.loop_mentions(l, g) for l in lps):
                continue
            n = guard.a[1]
            src = n.a[0] if n.op == 'len' else mk('range', INT(0), n)
            rng = mk('range', INT(0), n)
            m = {guard: M.more(self, rng, 0, lp.id), g: M.elem(self, rng, 0, lp.id)}
            if n.op == 'len':
                m[mk('index', src, g)] = M.elem(self, src, 0, lp.id)
            after = {g: n, guard: m[guard]}
            for (_, f), o in zip(firsts, outs):
                mm, memo = (m, {}) if f == ('eq', 1) else (after, {})
                s = o[1]
                s.cells = {c: subst(v, mm, memo) for c, v in s.cells.items()}
                s.conds[n_co:] = [(subst(t, mm, memo), k) for t, k in s.conds[n_co:]]
                s.know = {subst(t, mm, memo): v for t, v in s.know.items()}
                s.bnd = {subst(t, mm, memo): v for t, v in s.bnd.items()}
                evs = []
                for e in s.events[n_ev + 1:]:
                    na = tuple(subst(a, mm, memo) if isinstance(a, Term) else a for a in e.args)
                    if na != e.args:
                        e2 = Event(e.kind, e.key, na, e.span, e.fn, e.targs)
                        e2.ncond = e.ncond
                        e = e2
                    evs.append(e)
                s.events[n_ev + 1:] = evs
                if o[0] == 'back':
                    s.cells.pop(cell, None)
            lp.src = src
            del G.cells[cell]
            return

    def loop_mentions(self, l, g):
        has = lambda t: isinstance(t, Term) and contains(t, lambda x: x is g)
        return any(has(x) for p in l.init.values() for x in p) or \
            any(has(t) for b in l.body for t, _ in b.conds) or \
            any(has(t) for _, cs in l.exits for t, _ in cs) or \
            any(has(x) for b in l.body for p in b.updates.values() for x in p) or \
            any(has(a) for b in l.body for e in b.events for a in e.args) or has(l.src)

    def finish_loop(self, fr, lp, G, st, outs, n_ev, n_co):
        self.counting(lp, G, st, outs, n_ev, n_co)
        for cell, g in G.cells.items():
            o = st.cells.get(cell)
            if o is not g:
                o = o if o is not None else (cell[1] if cell[0] == 'd' else None)
                for n, x, y in parts(self.loopname(fr, cell, lp), g, o):
                    lp.init[n] = (y, x)
        for o in outs:
            if o[0] == 'back':
                s = o[1]
                upd = {}
                for cell, g in G.cells.items():
                    b = s.cells.get(cell)
                    if b is not None and b is not g:
                        upd.update((n, (x, y)) for n, x, y in parts(self.loopname(fr, cell, lp), g, b) if x is not y)
                lp.body.append(BodyPath(s.conds[n_co:], s.events[n_ev + 1:], upd))
        res = [o for o in outs if o[0] != 'back']
        for o in res:
            lp.exits.append((o[0], o[1].conds[n_co:]))
        lp.cells = {cell: (st.cells.get(cell), g) for cell, g in G.cells.items() if st.cells.get(cell) is not g}
        M.accumulators(self, fr, lp, G, st, outs, res, n_co)
        # when a loop can only end by running out of elements, that it ended is no information
        live = [o for o in res if o[0] != 'panic']
        ex = lambda c: c[0].op == 'more' and c[0].a[2] == lp.id and c[1] == ('eq', 0)
        if live and all(any(ex(c) for c in o[1].conds[n_co:]) for o in live):
            for o in live:
                o[1].conds[n_co:] = [c for c in o[1].conds[n_co:] if not ex(c)]
        return res

    def iterate(self, st, J, step, what, fr, span):
        """A loop implied by an iterator consumer.  step(st, elem) -> [(ctl, st, val)] with
        ctl in next/break/panic.  Returns [(kind, st, val)], kind exhaust/break/panic, and the loop."""
        b = J
        while b.op in M.ITEROPS and b.op != 'itr':
            b = b.a[0]
        if b.op == 'itr' and b.a[1] == 'at' and M.concrete_src(b.a[0]) is not None:
            return self.iterate_concrete(st, J, step, fr, span), None
        lp = self.new_loop(fr, span)
        n_ev, n_co = len(st.events), len(st.conds)
        st.events.append(Event('loop', lp.id, (), span, lp.fn))
        G = st
        J0 = M.to_rest(self, J, lp)
        for rounds in range(12):
            outs = []
            for s1, J1, e in M.next_(self, G.copy(), J0, fr, span):
                if e is None:
                    outs.append(('exhaust', s1, None))
                    continue
                if isinstance(e, str):
                    outs.append(('panic', s1, e))
                    continue
                for ctl, s2, val in step(s1, e):
                    outs.append(('back' if ctl == 'next' else ctl, s2, val))
            backs = [o[1] for o in outs if o[0] == 'back']
            G2 = G.copy()
            if not self.generalise(fr, G2, backs, lp):
                break
            G = G2
        else:
            raise Unsupported('iterator fixpoint did not settle')
        lp.src = M.base_src(J0)
        vals = [(o[1].conds[n_co:], o[2]) for o in outs if o[0] == 'back']
        res = self.finish_loop(fr, lp, G, st, outs, n_ev, n_co)
        bi = 0
        for b in lp.body:
            b.value = vals[bi][1]
            bi += 1
        return res, lp

    def iterate_concrete(self, st, J, step, fr, span):
        live, outs = [(st, J)], []
        while live:
            nxt = []
            for s, j in live:
                for s1, j1, e in M.next_(self, s.copy(), j, fr, span):
                    if e is None:
                        outs.append(('exhaust', s1, None))
                    elif isinstance(e, str):
                        outs.append(('panic', s1, e))
                    else:
                        for ctl, s2, val in step(s1, e):
                            if ctl == 'next':
                                nxt.append((s2, j1))
                            else:
                                outs.append((ctl, s2, val))
            live = nxt
        return outs

    # ------------------------------------------------------------ calls
    def bind(self, fn, targs):
        names = [n for n in fn.get('generics', []) if n]
        return {n: t for n, t in zip(names, targs)}

    def do_call(self, st, fr, t):
        f = t[1]
        span = t[5]
        args = [self.operand(st, fr, a) for a in t[2]]
        self.stats['calls'] += 1
        if f[0] == 'const' and f[1]['ty']['k'] == 'fndef':
            c = f[1]
            ty = self.subst_ty(c['ty'], fr.env)
            inst = c.get('inst')
            outs = self.call_fn(st, fr, ty['d'], ty['a'], inst, args, span)
        else:
            fv = self.operand(st, fr, f)
            outs = self.call_value(st, fr, fv, args, span)
        res = []
        for kind, s, v in outs:
            if kind == 'ok':
                if t[4] is not None:
                    cell, path, _ = self.resolve(s, fr, t[3])
                    if cell[0] == 'f' and not path:
                        s.cells[cell] = v
                    else:
                        self.write(s, cell, path, v, span, fr)
                res.append(('ok', s, v))
            else:
                res.append((kind, s, v))
        return res

    def call_value(self, st, fr, f, args, span):
        f = self.deref(st, f)
        if f.op == 'fnref':
            return self.call_fn(st, fr, (f.a[0], f.a[1]), f.a[2].v, f.a[3].v, args, span)
        if f.op == 'closure':
            fn = self.p.fns.get(f.a[0])
            if fn is None:
                raise Unsupported('closure body missing')
            env = self.bind(fn, f.a[1].v)
            ft = fn['body']['locals'][1]
            if ft['k'] == 'ref':
                self.seq += 1
                cell = ('c', self.seq)
                st.cells[cell] = f
                me = mk('ptr', cell, (), 1)
            else:
                me = f
            return self.inline(st, fr, fn, env, [me] + list(args), span)
        if f.op == 'fnot':
            outs = self.call_closure_mut(st, fr, f.a[0], args, span) if f.a[0].op == 'ptr' else self.call_value(st, fr, f.a[0], args, span)
            return [(k, s, neg(self.deref(s, v)) if k == 'ok' else v) for k, s, v in outs]
        # unknown function value
        return self.opaque_call(st, fr, 'callfn', [], [f] + list(args), span)

    def call_closure_mut(self, st, fr, place_ptr, args, span):
        """Calls the closure stored at place_ptr (FnMut): captured state stays there."""
        f = self.read(st, place_ptr.a[0], place_ptr.a[1])
        if f.op != 'closure':
            return self.call_value(st, fr, f, args, span)
        fn = self.p.fns.get(f.a[0])
        env = self.bind(fn, f.a[1].v)
        ft = fn['body']['locals'][1]
        me = place_ptr if ft['k'] == 'ref' else f
        return self.inline(st, fr, fn, env, [me] + list(args), span)

    def call_fn(self, st, fr, d, targs, inst, args, span):
        key = strip_generics(d[1])
        # an impl method of a foreign crate is named after its trait method where known
        local = self.local_target(d, targs, inst)
        if local is not None:
            fn, env = local
            name = strip_generics(fn['d'][1])
            if self.is_opaque(fn, key):
                return self.opaque_call(st, fr, self.opaque_name(fn, key), targs, args, span)
            if fn.get('expn') and key in M.DERIVED_ATOMIC:
                pass
            else:
                rec = any(s[0] == fn['d'][0] for s in fr.stack)
                if not rec and len(fr.stack) < 60:
                    return self.inline(st, fr, fn, env, args, span)
                return self.opaque_call(st, fr, self.opaque_name(fn, key), targs, args, span)
        self.callee = d[1]
        m = M.MODELS.get(key)
        if m is None and key.startswith('<') is False:
            m = M.lookup(key)
        if m is not None:
            r = m(self, st, fr, key, targs, args, span)
            if r is not None:
                return r
        c = self.ctors.get(key)
        if c:
            if c[0] in M.TRANSPARENT and args:
                return [('ok', st, args[0])]
            return [('ok', st, adt(c[0], c[1], *args))]
        return self.opaque_call(st, fr, key, targs, args, span)

    def is_opaque(self, fn, key):
        if key in self.opaque:
            return True
        p = strip_generics(fn['d'][1])
        return p in self.opaque or fn['d'][1] in self.opaque

    def opaque_name(self, fn, key):
        return key

    def local_target(self, d, targs, inst):
        """The in-workspace body a call resolves to, if any: (fn, generic env)."""
        h = d[0]
        ti = self.p.trait_item.get(h)
        is_trait_item = ti is not None or h in self.impl_items
        if is_trait_item:
            selfty = targs[0] if targs else None
            if selfty is not None and not self.rigid(selfty):
                f = self.find_impl(h, targs)
                if f:
                    imp, it, env = f
                    fn = self.p.fns.get(it['d'][0])
                    if fn is not None and 'body' in fn:
                        e = dict(env)
                        own = [n for n in fn.get('generics', []) if n and n not in imp.get('generics', [])]
                        rest = targs[len(imp.get('targs', [])):]
                        for n, t in zip(own, rest):
                            e[n] = t
                        return fn, e
            if inst and inst['kind'] == 'item':
                fn = self.p.fns.get(inst['d'][0])
                if fn is not None and 'body' in fn and fn.get('assoc') == 'impl' and h in self.impl_items:
                    # resolved by the compiler for every instantiation of the caller
                    f = self.find_impl(h, targs)
                    env = f[2] if f and f[1]['d'][0] == fn['d'][0] else {}
                    return fn, dict(env)
            if ti is not None:
                fn = self.p.fns.get(h)
                if fn is not None and 'body' in fn:
                    # provided method
                    return fn, self.bind(fn, targs)
            return None
        fn = self.p.fns.get(h)
        if fn is not None and 'body' in fn and fn['kind'] in ('Fn', 'AssocFn'):
            return fn, self.bind(fn, targs)
        return None

    def inline(self, st, fr, fn, env, args, span):
        self.stats['fns'].add(fn['d'][1])
        f2 = Frame(fn, env, fn['body'], fr.stack + ((fn['d'][0],),))
        self._frames[f2.id] = f2
        for i, a in enumerate(args):
            st.cells[('f', f2.id, i + 1)] = a
        out = []
        for o in self.run(st, f2, 0):
            if o[0] == 'ret':
                out.append(('ok', o[1], o[2]))
            else:
                out.append(o)
        return out

    def opaque_call(self, st, fr, key, targs, args, span):
        self.stats['uninterpreted'].add(key)
        muts, seen = [], set()
        for a in args:
            self.mutptrs(st, a, muts, seen)
        fa = [self.freeze(st, a) for a in args]
        if not args or key in M.TYPED:
            key2 = key + '<' + ','.join(tystr(x) for x in targs) + '>'
        else:
            key2 = key
        if key.split('::')[0] in self.nondet or any(key.startswith(p) for p in self.nondet):
            self.seq += 1
            fa = fa + [mk('nonce', self.seq)]
            st.events.append(Event('nondet', key, tuple(fa), span, fr.fn['d'][1]))
        t = call(key2, *fa)
        if muts:
            st.events.append(Event('call', key, tuple(fa), span, fr.fn['d'][1],
                                   tuple(tystr(x) for x in targs)))
            for i, p in enumerate(muts):
                self.write_quiet(st, p.a[0], p.a[1], mk('out', i, t))
        if key in M.DIVERGING:
            return [('panic', st, (key, tuple(fa)))]
        return [('ok', st, t)]

    def write_quiet(self, st, cell, path, val):
        base = self.read_cell(st, cell)
        st.cells[cell] = self.upd(base, path, val)

    # ------------------------------------------------------------ entry
    def analyse(self, fn, env=None, argnames=None):
        """All outcomes of calling fn with arbitrary arguments."""
        self.stats['fns'].add(fn['d'][1])
        st = State()
        body = fn['body']
        fr = Frame(fn, env or {}, body, ((fn['d'][0],),))
        self._frames[fr.id] = fr
        self.root = fr
        names = {}
        for n, p in body['names']:
            if not p[1] and 1 <= p[0] <= body['argc']:
                names[p[0]] = n
        params = []
        for i in range(1, body['argc'] + 1):
            nm = names.get(i, f'a{i - 1}')
            t = mk('param', i - 1, nm)
            ty = body['locals'][i]
            if ty['k'] == 'ref' and ty['m']:
                cell = ('p', t)
                st.cells[cell] = t
                st.cells[('f', fr.id, i)] = mk('ptr', cell, (), 1)
                params.append((t, cell))
            else:
                st.cells[('f', fr.id, i)] = t
                params.append((t, None))
        outs = []
        for o in self.run(st, fr, 0):
            oc = Outcome()
            oc.kind = o[0]
            s = o[1]
            oc.value = self.freeze(s, o[2]) if o[0] == 'ret' else o[2]
            oc.conds = [(self.freeze(s, t), f) for t, f in s.conds]
            oc.events = s.events
            oc.finals = {}
            oc.know = s.know
            for t, cell in params:
                if cell is not None:
                    v = self.freeze(s, s.cells[cell])
                    if v is not t:
                        oc.finals[t.a[1]] = v
            outs.append(oc)
        self.stats['paths'] += len(outs)
        return outs

    def params(self, fn):
        names = {}
        for n, p in fn['body']['names']:
            if not p[1] and 1 <= p[0] <= fn['body']['argc']:
                names[p[0]] = n
        return [mk('param', i - 1, names.get(i, f'a{i - 1}')) for i in range(1, fn['body']['argc'] + 1)]


class HashableTy:
    """A type (JSON) usable inside terms."""
    _t = {}

    def __init__(self, v, s):
        self.v, self.s = v, s

    @staticmethod
    def of(v):
        import json
        s = json.dumps(v, sort_keys=True)
        r = HashableTy._t.get(s)
        if r is None:
            r = HashableTy(v, s)
            HashableTy._t[s] = r
        return r

    def __repr__(self):
        return ''
