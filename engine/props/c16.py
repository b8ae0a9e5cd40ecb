from .clara import *
TECHNIQUE = CLARA
ASSUME = ASSUME_LIB


def sections(p, tier, work):
    lib = library(work)
    out = []
    for mode in ('all', 'small'):
        a = [S('%s[%s]' % (w, mode), libv.access, lib, mode, w) for w in ('Bytes', 'length', 'byte', 'get', 'set')]
        a += [S('%s[%s]' % (w, mode), libv.copy, lib, mode, w) for w in ('copyArray', 'copyString')]
        a += [S('IndexOf/%d[%s]' % (n, mode), libv.indexof, lib, mode, n) for n in (2, 3)]
        a += [S('IndexOf from a negative position[%s]' % mode, libv.indexofneg, lib, mode), S('Equals[%s]' % mode, libv.equals, lib, mode)]
        a += [S('toString(%s)[%s]' % (w, mode), libv.tostring, lib, mode, w) for w in ('all', 'length', 'range', 'Substring')]
        a += [S('append[%s]' % mode, libv.append, lib, mode)]
        a += [S('byteBuffer %s[%s]' % (w, mode), libv.buffer, lib, mode, w) for w in ('new', 'append', 'appendByte', 'grow', 'reset', 'size', 'toString', 'substring')]
        out += a
    out += [S('no aliasing: %s' % w, libv.alias, lib, w) for w in ('toString', 'buf')]
    return out + [lemmas()] + below(tier, 'prim', 'text', 'operators')


def cases(tier, seed):
    return rpcases('C16') + libgen.strings(seed, 60 if tier == 'quick' else 600)
