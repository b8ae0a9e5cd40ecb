"""Concrete programs run through the real compiler: the counterpart of every property, used to turn a refuted
obligation into a failing input and as the bounded companion of each proof."""
import concurrent.futures, os, re, shutil, subprocess, tempfile
from . import tools

# A case: dict(name, src, expect='reject'|'run', out=[lines] or None, rc=0, env={}, err=regex)


def parse_cases(path):
    cases, cur, part = [], None, None
    for line in open(path, encoding='utf-8'):
        line = line.rstrip('\n')
        if line.startswith('=== '):
            w = line[4:].split()
            cur = {'name': w[0], 'src': [], 'out': None, 'expect': 'run', 'rc': 0, 'env': {}, 'raw': False}
            for x in w[1:]:
                if x == 'REJECT':
                    cur['expect'] = 'reject'
                elif x == 'ACCEPT':
                    cur['expect'] = 'accept'
                elif x.startswith('RC='):
                    cur['rc'] = int(x[3:])
                elif x.startswith('PANIC='):
                    cur['panic'] = x[6:].replace('_', ' ')
                    cur['rc'] = 1
                elif x.startswith('ERR='):
                    cur['err'] = x[4:]
            part = cur['src']
            cases.append(cur)
        elif line.startswith('--- '):
            cur['out'] = part = []
        elif cur is not None:
            part.append(line)
    for c in cases:
        c['src'] = '\n'.join(c['src']) + '\n'
        if c['out'] is not None:
            while c['out'] and c['out'][-1] == '':
                c['out'].pop()
    return cases


def check_case(c, clarac, work, install):
    d = tempfile.mkdtemp(prefix='r_' + re.sub(r'\W', '_', c['name'])[:60], dir=work)
    src = os.path.join(d, 'prog.clara')
    data = c['src'] if isinstance(c['src'], bytes) else c['src'].encode('utf-8')
    with open(src, 'wb') as f:
        f.write(data)
    env = tools.goenv()
    env['TMPDIR'] = d
    try:
        r = subprocess.run([clarac, '-install', install, '-prog', src, '-out', d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=60)
    except subprocess.TimeoutExpired:
        return 'the compiler does not terminate within 60 s'
    txt = r.stdout.decode('utf-8', 'replace')
    errs = [l for l in txt.split('\n') if l.startswith(' - ')]
    if c['expect'] == 'reject':
        if r.returncode == 0:
            return 'the compiler accepts the program (it must reject it)'
        if r.returncode != 1 or 'Errors' not in txt:
            return 'the compiler fails instead of reporting an error (status %d): %s' % (r.returncode, txt[-600:])
        if c.get('err') and not re.search(c['err'], txt):
            return 'the errors reported do not match /%s/: %s' % (c['err'], txt[-600:])
        return None
    if r.returncode != 0:
        return 'the compiler rejects the program or fails (status %d): %s' % (r.returncode, txt[-800:])
    if c['expect'] == 'accept':
        return None
    exe = os.path.join(d, 'prog')
    env = dict(os.environ)
    env['MALLOC_PERTURB_'] = '90'
    env.update(c['env'])
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=c.get('timeout', 30), stdin=subprocess.DEVNULL, cwd=d)
    except subprocess.TimeoutExpired:
        return 'the compiled program does not terminate within 30 s'
    except OSError as e:
        return 'the compiled program cannot be run: %s' % e
    out = r.stdout.decode('utf-8', 'replace').split('\n')
    while out and out[-1] == '':
        out.pop()
    if c.get('panic'):
        if r.returncode != 1 or not any('Panic: ' in l and c['panic'] in l for l in out):
            return 'no panic "%s": exit status %d, output %r' % (c['panic'], r.returncode, out[-6:])
        n = len(c['out'] or [])
        if out[:n] != (c['out'] or []):
            return 'output before the panic is %r, expected %r' % (out[:n], c['out'])
        if sum('Panic: ' in l for l in out) != 1:
            return 'output continues after the panic'
        return None
    if c['out'] is not None and out != c['out']:
        k = next((i for i, (a, b) in enumerate(zip(out + [None] * 9999, c['out'] + [None])) if a != b), None)
        return 'output differs at line %s: got %r, expected %r (status %d)' % (k + 1 if k is not None else '?', out[k] if k is not None and k < len(out) else None,
                                                                      c['out'][k] if k is not None and k < len(c['out']) else None, r.returncode)
    if c['rc'] == 'any':
        return None
    if r.returncode != c['rc'] and not (c['rc'] == 1 and r.returncode not in (0,) and c.get('anyrc')):
        return 'exit status %d, expected %d; output ends %r' % (r.returncode, c['rc'], out[-3:])
    return None


def suite(cases, work, jobs=8):
    """returns (number run, [(case, message)]); gives up after several programs that hang"""
    clarac = tools.compiler(work)
    install = os.path.join(tools.REPO, 'install')
    hung, ran = [], []

    def one(c):
        if len(hung) >= 8:
            return None
        ran.append(1)
        w = tempfile.mkdtemp(prefix='c_', dir=work)
        try:
            m = check_case(c, clarac, w, install)
        finally:
            shutil.rmtree(w, ignore_errors=True)
        if m and 'does not terminate' in m:
            hung.append(c)
        return m
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        fails = [(c, m) for c, m in zip(cases, ex.map(one, cases)) if m]
    return len(ran), fails
