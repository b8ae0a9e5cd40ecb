from .clara import *
TECHNIQUE = CLARA
ASSUME = ['functions terminate (not proved; a replayed program that hangs is reported)',
          'function arguments are arbitrary functions of their argument and the state of the world, and may change that state']


def sections(p, tier, work):
    lib = library(work)
    out = []
    for mode in ('all', 'small'):
        out += [S('list %s[%s]' % (w, mode), funv.lists, lib, mode, w) for w in ('append', 'toList', 'reverse', 'remove', 'find', 'foreach', 'map', 'reduce')]
    out += [S('option %s' % w, funv.options, lib, w) for w in ('isSome', 'isNone', 'filter', 'orElse', 'map', 'peek')]
    out += [S('result %s' % w, funv.results, lib, w) for w in ('map', 'then', 'peek')]
    return out + below(tier, 'data', 'calls', 'flow')


def cases(tier, seed):
    return rpcases('C18') + libgen.lists(seed, 40 if tier == 'quick' else 400)
