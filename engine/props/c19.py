from .clara import *
TECHNIQUE = CLARA
ASSUME = ASSUME_LIB[:3]


def sections(p, tier, work):
    lib = library(work)
    out = [S('toString(int)', numv.decimal, lib), S('toBinary', numv.binary, lib), S('mod', numv.mod, lib), S('toString(bool)', numv.boolean, lib)]
    out += [S('fnv1a[%s]' % m, numv.fnv, lib, m) for m in ('all', 'small')]
    out += [S('mod[%d..%d]' % (a, a + 19), numv.modsmall, lib, a, a + 19) for a in range(-40, 41, 20)]
    return out + [lemmas()] + below(tier, 'prim', 'text', 'operators')


def cases(tier, seed):
    return rpcases('C19') + libgen.long_strings(seed) + libgen.numbers(seed, 50 if tier == 'quick' else 500)
