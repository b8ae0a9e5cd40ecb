"""Driver: check.py <property> [quick|thorough] | setup | replay <file>"""
import importlib, json, multiprocessing, os, re, shutil, signal, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from gv import tools, replay as rp
from gv.core import Obligations

VERIF = tools.VERIF
P = None
DEFS = None
SECTION_LIMIT = {'quick': 420, 'thorough': 3000}


class Timeout(Exception):
    pass


def onalarm(*a):
    raise Timeout()


def run_section(i):
    """executed in a forked worker"""
    name, fn, args, kw, want = DEFS['sections'][i]
    obs = Obligations()
    obs.want = want
    P.called.clear()
    t = time.time()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(SECTION_LIMIT[DEFS['tier']])
    try:
        obs.section(name, lambda ctx: fn(ctx, obs, P, name, *args, **kw))
    except Timeout:
        obs.sections.append((name, 'unsupported', 'time limit'))
    except BaseException as e:
        obs.sections.append((name, 'unsupported', '%s: %s' % (type(e).__name__, str(e)[:300])))
    finally:
        signal.alarm(0)
    obs.functions |= {f for f in P.called if '.init' not in f}
    d = obs.dump()
    d['name'], d['wall'] = name, time.time() - t
    return d


def known(pid):
    out = []
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    global P, DEFS
    if sys.argv[1] == 'setup':
        w = tools.scratch()
        try:
            print(tools.exporter(w))
        finally:
            shutil.rmtree(w)
        return 0
    if sys.argv[1] == 'replay':
        return rerun(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tools.scratch()
    try:
        return decide(pid, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, tier, seed, work, t0):
    global P, DEFS
    mod = importlib.import_module('props.' + pid.lower())
    try:
        ssa = tools.ssa(work)
    except tools.BuildError as e:
        print('cannot build /repo: %s' % e)
        return 2
    from gv.ssa import Prog
    obs = Obligations()
    try:
        P = Prog(ssa)
        secs = mod.sections(P, tier, work)
    except Exception as e:
        obs.sections.append(('set-up', 'unsupported', '%s: %s' % (type(e).__name__, str(e)[:300])))
        secs = []
    DEFS = {'sections': secs, 'tier': tier}
    order = list(range(len(secs)))
    walls = {}
    # the replay suite runs first on its own threads; sections in forked workers
    ctxm = multiprocessing.get_context('fork')
    if secs:
        with ctxm.Pool(min(8, len(secs)), maxtasksperchild=4) as pool:
            for d in pool.imap_unordered(run_section, order, chunksize=1):
                obs.merge(d)
                walls[d['name']] = round(d['wall'], 2)
    # bounded companion / replays on the real compiler
    cases = mod.cases(tier, seed)
    nrun, fails = 0, []
    try:
        nrun, fails = rp.suite(cases, work)
        if hasattr(mod, 'extra'):
            n2, f2 = mod.extra(tier, seed, work)
            nrun += n2
            fails += f2
    except tools.BuildError as e:
        print('cannot build /repo: %s' % e)
        return 2
    kf = known(pid)
    knownhits = []
    rest = []
    for c, m in fails:
        k = [x for x in kf if x[0] == c['name']]
        if k:
            knownhits.append(k[0])
        else:
            rest.append((c, m))
    refuted = {n: e for n, e in obs.o.items() if e['status'] == 'refuted'}
    kob = {x[0] for x in kf if x[0].startswith('obligation:')}
    refuted = {n: e for n, e in refuted.items() if 'obligation:' + n.replace(' ', '_') not in kob}
    unknown = {n: e for n, e in obs.o.items() if e['status'] == 'unknown'}
    gaps = [s for s in obs.sections if s[1] != 'ok']
    for k, what in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    wall = time.time() - t0
    nob = len(obs.o)
    dis = sum(1 for e in obs.o.values() if e['status'] == 'discharged')
    bounded = list(obs.bounded) + list(getattr(mod, 'BOUNDED', []))
    for n, st, note in gaps:
        bounded.append('section %s not verified on this tree (%s: %s): only the bounded companion covers it' % (n, st, note))
    for n in unknown:
        bounded.append('obligation %s undecided by the solver: only the bounded companion covers it' % n)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {
              'obligations': nob, 'discharged': dis, 'undecided': len(unknown), 'refuted': len(refuted),
              'verification_conditions': sum(e['n'] for e in obs.o.values()),
              'paths': obs.stats.get('paths', 0), 'solver_queries': obs.stats.get('queries', 0), 'solver_s': round(obs.solver_s, 2),
              'back_end': getattr(mod, 'BACKEND', 'z3 (python bindings) over symbolic execution of the SSA of /repo'),
              'sections': {n: st for n, st, _ in obs.sections}, 'section_wall_s': walls,
              'functions_under_contract': sorted(obs.functions), 'contracts_at_call_sites': sorted(obs.contracts),
              'checker_cmd': 'bash /verif/check.sh %s %s' % (pid, tier),
              'trusted_base': mod.TRUSTED, 'bounded_parts': bounded,
              'replay_programs_run': nrun, 'replay_programs_failed': len(fails),
              'samples': [{'obligation': n, 'vcs': e['n'], 'status': e['status']} for n, e in sorted(obs.o.items())[:25]]},
          'assumptions': list(mod.ASSUME) + obs.assume, 'wall_s': round(wall, 2),
          'violations': len(rest) + len(refuted)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    print('%s %s: %d obligations (%d VCs), %d discharged, %d undecided, %d refuted; %d sections, %d not verified; %d programs replayed, %d failed; %.1f s' % (
        pid, tier, nob, ev['coverage']['verification_conditions'], dis, len(unknown), len(refuted), len(obs.sections), len(gaps), nrun, len(fails), wall))
    for g in gaps:
        print('  not verified: %s: %s %s' % g)
    for n in unknown:
        print('  undecided: %s' % n)
    if not rest and not refuted:
        return 0
    rd = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, '%s.json' % pid)
    rec = {'property': pid, 'failed_obligations': [{'obligation': n, 'verifier': e['detail']} for n, e in sorted(refuted.items())],
           'failing_inputs': [{'case': c, 'observed': m} for c, m in rest[:10]],
           'rerun': 'bash /verif/check.sh replay %s' % path}
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1, ensure_ascii=False, default=str)
    for n, e in sorted(refuted.items())[:12]:
        print('  failed obligation: %s | %s' % (n, e['detail'][:300]))
    for c, m in rest[:5]:
        print('  failing input: %s: %s' % (c['name'], m[:400]))
    print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if rest else ' no-failing-input-found'))
    return 1


def rerun(path):
    d = json.load(open(path))
    mod = importlib.import_module('props.' + d['property'].lower())
    w = tools.scratch()
    try:
        cases = [x['case'] for x in d['failing_inputs'] if 'src' in x['case']]
        n, fails = rp.suite(cases, w)
        other = [x['case'] for x in d['failing_inputs'] if 'src' not in x['case']]
        if other and hasattr(mod, 'recheck'):
            n += len(other)
            fails = fails + mod.recheck(other, w)
        for c, m in fails:
            print('FAILS %s: %s' % (c['name'], m))
        print('%d of %d recorded inputs fail' % (len(fails), n))
        for o in d['failed_obligations']:
            print('obligation %(obligation)s: %(verifier)s' % o)
        return 1 if fails else 0
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
