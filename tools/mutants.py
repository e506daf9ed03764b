#!/usr/bin/env python3
"""
Runs checks against many edits of the repository, each in its own scratch
copy (development tool, no check uses it).

    mutants.py PLAN.py [NAME...]

A plan defines M = [(name, prop, file, old, new)].
"""
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = int(os.environ.get('MJOBS', '2'))


def one(m):
    name, prop = m[0], m[1]
    edits = m[2] if isinstance(m[2], list) else [tuple(m[2:5])]
    d = '/tmp/mutants/' + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run('git -C /repo archive HEAD | tar -x -C ' + d, shell=True,
                   check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return name, prop, 'EDIT %s matches %d' % (f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        out = []
        for pr in prop.split('+'):
            env = dict(os.environ, VERIF_REPO=d, VERIF_JOBS=str(8 // JOBS))
            r = subprocess.run([HERE + '/check', pr], env=env, cwd=HERE,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            t = r.stdout.decode(errors='replace')
            v = re.search(r'^.*violat.*$', t, re.M | re.I)
            out.append('%s rc=%d %s' % (pr, r.returncode, (
                v.group(0)[:250] if v else t.strip()[-200:])))
        return name, prop, '; '.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ms = [m for m in ns['M'] if not sys.argv[2:] or m[0] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for name, prop, text in ex.map(one, ms):
            print('%-28s %s' % (name, text), flush=True)


main()
