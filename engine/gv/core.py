"""Obligation bookkeeping and the link from a property module to the driver."""
import time, traceback, z3
from .ssa import *


class Obligations:
    def __init__(self):
        self.o = {}          # name -> dict(status, n, detail)
        self.stats = {}
        self.sections = []   # (name, status, note)
        self.functions = set()   # functions of /repo executed symbolically
        self.contracts = set()   # functions replaced by their contract at call sites
        self.bounded = []    # notes on bounded parts
        self.assume = []
        self.solver_s = 0.0

    def rec(self, name, status, detail=''):
        e = self.o.setdefault(name, {'status': 'discharged', 'n': 0, 'detail': ''})
        e['n'] += 1
        rank = {'discharged': 0, 'unknown': 1, 'refuted': 2}
        if rank[status] > rank[e['status']]:
            e['status'] = status
            e['detail'] = detail

    # prove cond under the path condition of ctx
    def prove(self, ctx, name, cond, info=''):
        t = time.time()
        if isinstance(cond, bool):
            ok = cond if cond else (None if False else False)
            m = None
            if not cond and not ctx.feasible():
                ok = True
        else:
            ok, m = ctx.valid(cond)
        self.solver_s += time.time() - t
        if ok:
            self.rec(name, 'discharged')
        elif ok is None:
            self.rec(name, 'unknown', 'solver gave no answer; ' + str(info)[:400])
        else:
            d = str(info)
            if m is not None:
                d += ' | counterexample: ' + ', '.join('%s=%s' % (k, m[k]) for k in list(m)[:30] if 'Function' not in str(type(m[k])))[:1500]
            self.rec(name, 'refuted', d)
        return ok

    def section(self, name, fn, *a, maxpaths=20000, timeout=10000, **kw):
        """explore every path of fn(ctx, obs); fn records obligations"""
        t0 = time.time()
        n0 = sum(e['n'] for e in self.o.values())
        try:
            def run(ctx):
                try:
                    return fn(ctx, *a, **kw)
                except GoPanic as e:
                    if ctx.feasible():
                        self.rec(name + '/no-panic', 'refuted', 'the code panics: %s at %s' % (e, e.pos))
            explore(run, self.stats, maxpaths, timeout)
            if sum(e['n'] for e in self.o.values()) == n0:
                self.sections.append((name, 'vacuous', 'no obligation was generated'))
                return
            self.rec(name + '/no-panic', 'discharged')
            self.sections.append((name, 'ok', '%.2fs' % (time.time() - t0)))
        except Unsupported as e:
            self.sections.append((name, 'unsupported', str(e)[:300]))
        except RecursionError as e:
            self.sections.append((name, 'unsupported', 'recursion'))
        except Exception as e:  # the harness does not fit the code
            self.sections.append((name, 'unsupported', '%s: %s | %s' % (type(e).__name__, str(e)[:200], traceback.format_exc()[-400:])))

    def merge(self, d):
        for n, e in d['o'].items():
            f = self.o.setdefault(n, {'status': 'discharged', 'n': 0, 'detail': ''})
            rank = {'discharged': 0, 'unknown': 1, 'refuted': 2}
            f['n'] += e['n']
            if rank[e['status']] > rank[f['status']]:
                f['status'], f['detail'] = e['status'], e['detail']
        for k, v in d['stats'].items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.sections += [tuple(x) for x in d['sections']]
        self.functions |= set(d['functions'])
        self.contracts |= set(d['contracts'])
        self.bounded += d['bounded']
        self.assume += d['assume']
        self.solver_s += d['solver_s']

    def dump(self):
        return {'o': self.o, 'stats': self.stats, 'sections': self.sections, 'functions': sorted(self.functions),
                'contracts': sorted(self.contracts), 'bounded': self.bounded, 'assume': self.assume, 'solver_s': self.solver_s}
