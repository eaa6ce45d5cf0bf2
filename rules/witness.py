"""Programs that must not compile, and their right twins, which must: the compiler's type checker decides."""
import json, os
from rules import prop

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = os.path.join(V, 'witness', 'src', 'bin')


def programs(c, which):
    with open(os.path.join(c.dumps('witness'), 'witness.json')) as f:
        res = json.load(f)
    n = 0
    for f in sorted(os.listdir(BIN)):
        name = f[:-3]
        if not which(name):
            continue
        lines = open(os.path.join(BIN, f)).read().split('\n')
        marks = {i + 1: l.split('//~ ')[1].strip() for i, l in enumerate(lines) if '//~ ' in l}
        errs = [e for e in res['errors'] if e['program'] == name]
        for e in errs:
            if e['line'] not in marks:
                c.violate('refused', f'witness/src/bin/{f}', f'a right program is refused: "{e["message"][:200]}" for `{lines[e["line"] - 1].strip()}`')
        for i, m in marks.items():
            n += 1
            what = lines[i - 1].split('//~')[0].strip()
            got = [e for e in errs if e['line'] == i]
            c.ob('refused', f'witness/src/bin/{f}', f'{what}: ' + '; '.join(f'{e["code"]} {e["message"][:120]}' for e in got))
            # a marked word (not an error code) must be in the text the derive reports
            if not got:
                c.violate('accepted', f'witness/src/bin/{f}', f'a wrong program compiles: `{what}`')
            elif m[0] != 'E' and not any(m in e['message'] for e in got):
                c.violate('accepted', f'witness/src/bin/{f}', f'refused for another reason than {m}: {got[0]["message"][:200]}')
        if not marks:
            c.ob('accepted', f'witness/src/bin/{f}', 'compiles')
            if name not in res['accepted'] and not errs:
                c.violate('refused', f'witness/src/bin/{f}', 'a right program is refused')
    return n


@prop('C45', 'The derive refuses a missing, unknown or unsupported strategy or id',
      'Small programs using the derive with one mistake each are type-checked against the current derive: the compiler must refuse each at its '
      'derive, and accept the right ones.', floor=9)
def c45(c):
    c.rule('each wrong use of #[derive(CommitEncode)] is an error on its line; the right uses, in witness/src/lib.rs, compile')
    c.count('wrong uses', programs(c, lambda n: n.startswith('derive_')), 9)


@prop('C46', 'Mixed-up ids, forged values and spent engines do not compile',
      'Small programs, each line of which misuses the API in one way, are type-checked against the current libraries: the compiler must refuse '
      'every marked line and no other; the right twins of those lines compile.', floor=50)
def c46(c):
    c.rule('each misuse is an error on its line; the right program compiles; the public types can be shared between threads')
    c.count('misuses', programs(c, lambda n: not n.startswith('derive_')), 50)
