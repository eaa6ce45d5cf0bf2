PROPS = {}


class Prop:
    pass


STD_ASSUME = [
    'rustc (nightly) lowers the source to MIR faithfully',
    'the models of core, alloc, amplify and strict_encoding operations in engine/models.py describe those libraries',
    'user-supplied trait implementations behave as functions of their arguments (Clone, Borrow and iteration included)',
]


def prop(pid, title, how, floor=1, level='other', assume=()):
    def d(fn):
        p = Prop()
        p.fn, p.title, p.how, p.floor, p.level = fn, title, how, floor, level
        p.assume = STD_ASSUME + list(assume)
        PROPS[pid] = p
        return fn
    return d
