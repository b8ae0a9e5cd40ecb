from .clara import *
from gv import mapv
TECHNIQUE = CLARA
ASSUME = ASSUME_LIB[:3] + [
    'the matcher is an equivalence on keys, the hash function gives equal keys equal values, neither changes anything (any such pair of functions)',
    'the function given to foreach does not change the map',
    'find, remove, foreach on lists and array(length, default) by their contracts (decided by C18 and C11)']


def sections(p, tier, work):
    lib = library(work)
    out = [S('map %s[small]' % w, mapv.small, lib, w) for w in ('put', 'putresize', 'history', 'remove', 'resize', 'look')]
    out += [S('map %s[all]' % w, mapv.unbounded, lib, w) for w in ('get', 'contains', 'orElse', 'put', 'remove', 'foreach', 'resize', 'new')]
    return out + below(tier, 'prim', 'data', 'calls') + [S('laws of the list functions', mapv.laws, lib), lemmas()]


def cases(tier, seed):
    return rpcases('C17') + libgen.bigmaps() + libgen.maps(seed, 50 if tier == 'quick' else 500)
