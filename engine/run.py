import sys, fnmatch
from load import *
from absint import *
p = Program.load(sys.argv[1], 'all', sys.argv[2])
opaque = sys.argv[4:]
for path, l in sorted(p.by_path.items()):
    if sys.argv[3] == path or sys.argv[3] == strip_generics(path) or ('*' in sys.argv[3] and fnmatch.fnmatchcase(path, sys.argv[3])):
        for fn in l:
            if 'body' not in fn: continue
            an = Analysis(p, opaque)
            print('==', path, fn['kind'])
            outs = an.analyse(fn)
            for o in outs: print(repr(o))
            for lp in an.loops.values():
                print('  LOOP', lp.id, lp.fn.split('::')[-1], 'src', lp.src, 'exits', [(k, [showcond(c) for c in cs]) for k, cs in lp.exits])
                for b in lp.body:
                    print('     ', ' & '.join(showcond(c) for c in b.conds), '->', {k: v[1] for k, v in b.updates.items()}, b.events, b.value)
            print('uninterp', sorted(an.stats['uninterpreted']))
