"""The front end of the compiler under test as a function from texts to tokens and trees: a harness file is laid over package main
(go build -overlay), so it runs the real lexer and parser."""
import json, os, subprocess
from . import tools


class Front:
    def __init__(self, work):
        self.exe = tools.compiler(work, overlay={os.path.join(tools.REPO, 'zz_verif.go'): os.path.join(tools.VERIF, 'engine', 'harness', 'zz_verif.go')}, name='clarac-front')

    def dump(self, mode, texts, timeout=120):
        """-> one dict per text; {'crash': message} for the text on which the process dies or hangs"""
        out, todo = [], list(texts)
        while todo:
            data = b''.join(b'%d\n' % len(t) + t for t in todo)
            env = tools.goenv()
            env['CLARA_VERIF_DUMP'] = mode
            env['GOMEMLIMIT'] = '4GiB'
            try:
                r = subprocess.run([self.exe], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
                lines, err = r.stdout, r.stderr.decode('utf-8', 'replace')[:300]
            except subprocess.TimeoutExpired as e:
                lines, err = e.stdout or b'', 'does not terminate within %d s' % timeout
            got = [json.loads(l) for l in lines.split(b'\n') if l.endswith(b'}')]
            out += got
            if len(got) >= len(todo):
                break
            out.append({'crash': err or 'died'})
            todo = todo[len(got) + 1:]
        return out


def try_front(work):
    try:
        return Front(work), None
    except tools.BuildError as e:
        return None, str(e)
