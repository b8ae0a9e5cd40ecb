from .clara import *
from gv import gcv, crt
TECHNIQUE = CLARA
TRUSTED = TRUSTED + ['cbmc (C run time), gcc; calloc and free behave as their names say']
BACKEND = BACKEND + '; cbmc for install/init/runtime.c'
ASSUME = [
    'every pointer a program holds leads to an object whose header was written by an allocation or by the compiler: its type id is below 2^15 and in the type table (C12, C13)',
    'a word of an object or stack slot is a tagged int (odd) or an address below 2^62; addresses of blocks are above 1024 and multiples of 8',
    'objects do not overlap the header words of blocks; functions are read-only (C12)',
    'the recursion of the marking is not bounded by the size of the C stack; termination is not proved',
    'struct types have fewer than 2^20 pointer fields, frames fewer than 2^20 slots, arrays are shorter than 2^40']
BOUNDED = ['[small] sections run the same functions on every mark pattern of a few blocks and on random heaps of up to 5 objects and 3 frames; they only refute']


def sections(p, tier, work):
    lib = library(work)
    n = 1 if tier == 'quick' else 10
    out = [S(w, gcv.bits, lib, w) for w in ('setMark', 'clearMark', 'isMarked', 'isReadOnly', 'typeId')]
    out += [S('gcSweep[small]', gcv.smallsweep, lib, 7 if tier == 'quick' else 10), S('gcMarkPointer[small]', gcv.smallmark, lib, 1, 1500 * n), S('gcMark[small]', gcv.smallgcmark, lib, 2, 800 * n)]
    out += [S('claralloc', gcv.alloc, lib), S('gcSweep[all]', gcv.sweep, lib), S('laws of the block list', gcv.sweeplaws, lib), S('gcMarkPointer[all]', gcv.mark, lib),
            S('gcMark[all]', gcv.gcmark, lib), S('gc', gcv.gcall, lib)]
    return out + [lemmas(), S('C run time', crt.runtime)] + below(tier, 'prim', 'gc')


def cases(tier, seed):
    return rpcases('C20') + libgen.gctypes() + libgen.heaps(seed, 60 if tier == 'quick' else 600)
