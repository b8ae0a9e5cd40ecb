"""The C part of the run time (install/init/runtime.c) under contract, decided by CBMC: the functions have no loops, the state they start
from is arbitrary (--nondet-static), so every obligation holds for all inputs and states."""
import json, os, subprocess
from . import tools
from .ssa import Unsupported

HARNESS = os.path.join(tools.VERIF, 'engine', 'harness', 'runtime_cbmc.c')
FUNCS = {'get': ('getBlocks', 'getRuntime', 'isStackBase'), 'setBlocks': ('setBlocks',), 'setRuntime': ('setRuntime',), 'setStackBase': ('setStackBase', 'isStackBase'), 'errnum': ('errnum',), 'debug': ('debug',)}


def runtime(ctx, obs, p, sec):
    init = os.path.join(tools.REPO, 'install', 'init')
    for h, fs in FUNCS.items():
        try:
            r = subprocess.run(['cbmc', HARNESS, os.path.join(init, 'runtime.c'), '-I', init, '--function', 'h_' + h, '--nondet-static', '--no-standard-checks', '--unwind', '8', '--unwinding-assertions', '--json-ui'],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            out = json.loads(r.stdout)
        except (ValueError, OSError, subprocess.TimeoutExpired) as e:
            raise Unsupported('cbmc: %s' % e)
        res = [x for d in out if 'result' in d for x in d['result']]
        if r.returncode not in (0, 10) or not res:
            raise Unsupported('cbmc gives no result: %s' % str(out[-2:])[:300])
        if any('unwinding' in x['property'] and x['status'] != 'SUCCESS' for x in res):
            raise Unsupported('a loop in the C run time')
        for x in res:
            if x['property'].startswith('h_%s.assertion' % h):
                obs.rec('%s/%s: %s' % (sec, h, x['description']), 'discharged' if x['status'] == 'SUCCESS' else 'refuted', 'cbmc: ' + str([s.get('lhs', '') + '=' + s.get('value', {}).get('data', '') for s in x.get('trace', []) if s.get('stepType') == 'assignment' and s.get('value', {}).get('data')][-12:]))
        obs.functions |= {'C: ' + f for f in fs}
