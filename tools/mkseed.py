#!/usr/bin/env python3
"""mkseed.py SPEC.py...: plants a bug: writes /verif/seeded/<id>/, confirms it (build, stable tests, demo both ways), runs the check.
A spec file defines id, prop, needs, breaks, edits=[(file, old, new)], case (a replay case: prog text, 'expect'...)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
R = '/repo'
DEMO = r'''#!/bin/bash
# exit 0: the compiled program behaves as expected; nonzero otherwise. Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go build -o "$W/clarac" . || exit 2
TMPDIR=$W timeout 60 "$W/clarac" -install "$PWD/install" -prog "$D/prog.clara" -out "$W" > "$W/log" 2>&1
rc=$?
if [ -f "$D/reject" ]; then
  [ $rc -eq 1 ] && grep -q '^Errors' "$W/log" && exit 0
  echo "the program was not rejected (status $rc)"; exit 1
fi
if [ $rc -ne 0 ]; then cat "$W/log"; echo "the compiler failed (status $rc)"; exit 1; fi
cd "$W" && MALLOC_PERTURB_=90 timeout 60 ./prog > "$W/out" 2>&1 < /dev/null
rc=$?
want=0; [ -f "$D/status" ] && want=$(cat "$D/status")
if [ $rc -ne $want ]; then tail -3 "$W/out"; echo "exit status $rc, expected $want"; exit 1; fi
diff "$D/expected" "$W/out" || exit 1
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def clean():
    sh('git -C %s checkout -- .' % R)


for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns['bugs']:
        d = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        clean()
        try:
            for f, old, new in b['edits']:
                p = os.path.join(R, f)
                s = open(p, encoding='utf-8').read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(p, 'w', encoding='utf-8').write(s.replace(old, new))
            diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE).stdout
            open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1, ensure_ascii=False)
            if 'demo' in b:
                open(os.path.join(d, 'demo.sh'), 'w').write(b['demo'])
                for n, t in b.get('files', {}).items():
                    open(os.path.join(d, n), 'w', encoding='utf-8').write(t)
            else:
                open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
                open(os.path.join(d, 'prog.clara'), 'w', encoding='utf-8').write(b['prog'])
                if b.get('reject'):
                    open(os.path.join(d, 'reject'), 'w').write('')
                else:
                    open(os.path.join(d, 'expected'), 'w', encoding='utf-8').write(b['expected'])
                if 'status' in b:
                    open(os.path.join(d, 'status'), 'w').write(str(b['status']))
            r = sh('bash /opt/vp/build.sh')
            if r.returncode:
                print(b['id'], 'DOES NOT BUILD', r.stdout.decode()[-500:]); continue
            r = sh('bash /opt/vp/test.sh /tmp/seed-o.json')
            o = json.load(open('/tmp/seed-o.json'))
            st = json.load(open('/opt/vp/BASELINE.json'))['stable']
            miss = [t for t in st if t not in o['passed']]
            if miss:
                print(b['id'], 'FAILS TESTS', miss); continue
            bad = sh('bash %s/demo.sh' % d, cwd=R)
            chk = sh('bash %s/check.sh %s quick' % (V, b['prop']))
            t = chk.stdout.decode()
        finally:
            clean()
        good = sh('bash %s/demo.sh' % d, cwd=R)
        ok = bad.returncode != 0 and good.returncode == 0
        v = [l for l in t.split('\n') if l.startswith('VIOLATION')]
        print('%s: demo %s (with %d: %s; without %d: %s); check %s rc=%d %s' % (b['id'], 'OK' if ok else 'BAD', bad.returncode, bad.stdout.decode()[-150:].replace('\n', ' | '), good.returncode,
              good.stdout.decode()[-200:].replace('\n', ' | ') if good.returncode else '', b['prop'], chk.returncode, v))
        if chk.returncode != 1:
            print(t[-1500:])
