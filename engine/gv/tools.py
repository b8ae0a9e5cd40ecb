"""Building things from /repo's working tree in a scratch directory."""
import hashlib, json, os, shutil, subprocess, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), '..', '..'))


class BuildError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
    e.setdefault('HOME', '/root')
    return e


def run(cmd, **kw):
    kw.setdefault('env', goenv())
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def scratch():
    return tempfile.mkdtemp(prefix='clara-verif-')


def exporter(work):
    """the SSA exporter: from setup if it is there and current, else built now"""
    src = os.path.join(VERIF, 'engine', 'ssaexport')
    h = hashlib.sha256(b''.join(open(os.path.join(src, f), 'rb').read() for f in ('main.go', 'go.mod', 'go.sum'))).hexdigest()[:16]
    out = os.path.join(VERIF, 'build', 'ssaexport-' + h)
    if os.path.exists(out):
        return out
    tmp = os.path.join(work, 'ssaexport')
    r = run(['go', 'build', '-o', tmp, '.'], cwd=src)
    if r.returncode:
        raise BuildError('SSA exporter: ' + r.stderr.decode()[-2000:])
    try:
        os.makedirs(os.path.dirname(out), exist_ok=True)
        shutil.copy2(tmp, out + '.tmp%d' % os.getpid())
        os.replace(out + '.tmp%d' % os.getpid(), out)
    except OSError:
        return tmp
    return out


def ssa(work):
    x = exporter(work)
    out = os.path.join(work, 'ssa.json')
    with open(out, 'wb') as f:
        r = subprocess.run([x, REPO], stdout=f, stderr=subprocess.PIPE, env=goenv())
    if r.returncode:
        raise BuildError('exporting SSA: ' + r.stderr.decode()[-2000:])
    return out


def compiler(work, overlay=None, name='clarac', pkg='.'):
    out = os.path.join(work, name)
    cmd = ['go', 'build', '-o', out]
    if overlay:
        o = os.path.join(work, name + '-overlay.json')
        json.dump({'Replace': overlay}, open(o, 'w'))
        cmd += ['-overlay', o]
    r = run(cmd + [pkg], cwd=REPO)
    if r.returncode:
        raise BuildError('building the compiler: ' + r.stderr.decode()[-2000:])
    return out
