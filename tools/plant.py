#!/usr/bin/env python3
"""
Makes and confirms planted bugs (development tool, no check uses it).

    plant.py PLAN.py [ID...]     writes seeded/<id>/ from a plan
    plant.py --test ID...        demo on base and patched, stable tests, check

A plan defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks,
demo)], edits being made on /repo's working tree and undone afterwards.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO = '''#!/bin/bash
# cwd: the repository
D=$(cd "$(dirname "$0")" && pwd)
export JYTHONPATH=$PWD:/opt/pyamf-deps LC_ALL=C.UTF-8 TZ=UTC
exec timeout 250 java -Xmx1000m -Xss4m \\
  -cp /usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar \\
  -Dpython.home=/usr/share/jython \\
  -Dpython.executable=/usr/share/jython/bin/jython \\
  -Dpython.cachedir.skip=true org.python.util.jython -B "$D/demo.py"
'''


def git(*a):
    return subprocess.run(('git', '-C', REPO) + a, check=True,
                          stdout=subprocess.PIPE).stdout.decode()


def make(bug):
    d = os.path.join(HERE, 'seeded', bug['id'])
    os.makedirs(d, exist_ok=True)
    assert not git('status', '--short'), 'repo not clean'
    try:
        for f, old, new in bug['edits']:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (bug['id'], f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = git('diff')
    finally:
        git('checkout', '--', '.')
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(bug['demo'].lstrip())
    json.dump({'property': bug['prop'], 'needs': bug['needs'],
               'what_it_breaks': bug['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def demo(i):
    r = subprocess.run(['bash', os.path.join(HERE, 'seeded', i, 'demo.sh')],
                       cwd=REPO, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors='replace')


def test(i, tests=True, check=True):
    d = os.path.join(HERE, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    rc0, out0 = demo(i)
    res = ['demo base rc=%d' % rc0]
    if rc0:
        res.append(out0[-800:])
    git('apply', os.path.join(d, 'patch.diff'))
    try:
        rc1, out1 = demo(i)
        res.append('demo patched rc=%d %s' % (
            rc1, out1.strip().splitlines()[-1:]))
        if tests:
            r = subprocess.run(['bash', '/tmp/tst.sh'],
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            res.append('tests: ' + ' '.join(
                r.stdout.decode().strip().splitlines()[-2:]))
        if check:
            env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
            r = subprocess.run([os.path.join(HERE, 'check'), prop],
                               cwd=HERE, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            o = r.stdout.decode(errors='replace').strip().splitlines()
            res.append('check %s rc=%d %s' % (prop, r.returncode,
                                              [l[:200] for l in o[-4:]]))
    finally:
        git('checkout', '--', '.')
    print(i, '\n   '.join([''] + res), flush=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    kw = {}
    for f in ('--no-tests', '--no-check'):
        if f in a:
            a.remove(f)
            kw[f[5:]] = False
    if a[0] == '--test':
        for i in a[1:]:
            test(i, **kw)
    else:
        ns = {}
        exec(open(a[0]).read(), ns)
        for b in ns['BUGS']:
            if not a[1:] or b['id'] in a[1:]:
                make(b)
                test(b['id'], **kw)
