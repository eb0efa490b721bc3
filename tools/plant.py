#!/usr/bin/env python3
"""Plants the bugs described in a file of specs (see docstring of main).

  python3-vt tools/plant.py SPECS.py [id...]   write + confirm + check

A spec is dict(id, prop, needs, breaks, edits=[(file, old, new)], demo).
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plantwt'


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **k)


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    sh('git', 'clone', '-q', '/repo', W)


def reset():
    sh('git', '-C', W, 'checkout', '-q', '--', '.')


def tests():
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=W + '/src',
               PYTHONHASHSEED='0', TZ='UTC')
    p = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
           'no:cacheprovider', '-x', 'tests', cwd=W, env=env)
    return p.returncode == 0, p.stdout[-400:]


def demo(d):
    env = dict(os.environ)
    p = sh('bash', d + '/demo.sh', cwd=W, env=env, timeout=300)
    return p.returncode, p.stdout[-300:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    fresh()
    for s in ns['SPECS']:
        if only and s['id'] not in only:
            continue
        d = HERE + '/seeded/' + s['id']
        os.makedirs(d, exist_ok=True)
        for f in ('drv.py', 'demo.sh'):
            shutil.copy(HERE + '/tools/plant/' + f, d)
        with open(d + '/demo.py', 'w') as h:
            h.write('from drv import *\n' + s['demo'].strip('\n') + '\n')
        json.dump(dict(property=s['prop'], needs=s['needs'],
                       what_it_breaks=s['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        reset()
        rc0, out0 = demo(d)
        ok = rc0 == 0
        msg = '' if ok else 'demo fails on clean: ' + out0
        for f, old, new in s['edits']:
            p = W + '/src/acetimetools/' + f
            t = open(p).read()
            if t.count(old) != 1:
                ok = False
                msg += ' edit matches %d times: %r' % (t.count(old), old[:60])
                continue
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git', '-C', W, 'diff').stdout
        with open(d + '/patch.diff', 'w') as h:
            h.write(diff)
        if ok:
            t, o = tests()
            if not t:
                ok, msg = False, 'tests fail: ' + o
        if ok:
            rc1, out1 = demo(d)
            if rc1 == 0:
                ok, msg = False, 'demo passes with the bug'
        if not ok:
            print('BAD %s: %s' % (s['id'], msg))
            shutil.rmtree(d)
            continue
        print('ok  %s (%s): %s' % (s['id'], s['prop'], out1.strip()))
        if os.environ.get('NOCHECK'):
            continue
        p = sh('python3-vt', '-m', 'harness.run', s['prop'], 'quick',
               cwd=HERE, env=dict(os.environ, VERIF_REPO=W))
        v = [x for x in p.stdout.splitlines() if x.startswith('  ')
             or x.startswith('SPUR') or x.startswith('ERR')][:1]
        print('    %s %s' % ('CAUGHT' if p.returncode == 1 else
                             'MISSED rc=%d' % p.returncode,
                             v or p.stdout[-300:]))
        sys.stdout.flush()
    shutil.rmtree(W, ignore_errors=True)


main()
