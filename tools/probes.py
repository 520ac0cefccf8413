#!/usr/bin/env python3
"""Small breakages, without demonstrations: which rules report them?  python3 tools/probes.py FILE [-k name]
A file calls p(name, property, edits...).  Prints MISSED where the named property stays quiet."""
import os
import queue
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def p(name, prop, *edits):
    P.append((name, prop, edits))


def main():
    args = sys.argv[1:]
    pat = None
    if '-k' in args:
        i = args.index('-k')
        pat = re.compile(args[i + 1])
        del args[i:i + 2]
    for f in args:
        exec(compile(open(f).read(), f, 'exec'), {'p': p})
    base = os.environ.get('RF', '/tmp/pb')
    jobs = int(os.environ.get('JOBS', '4'))
    pool = queue.Queue()
    for i in range(jobs):
        t = '%s/t%d' % (base, i)
        os.makedirs(base, exist_ok=True)
        if not os.path.isdir(t):
            subprocess.run(['git', 'clone', '-q', '/repo', t], check=True)
            subprocess.run(['cp', '/opt/vp/Cargo.lock', t], check=False)
        subprocess.run('cd %s && git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD' % t, shell=True)
        pool.put(i)

    def one(x):
        name, prop, edits = x
        i = pool.get()
        t = '%s/t%d' % (base, i)
        try:
            subprocess.run('cd %s && git checkout -q -- .' % t, shell=True)
            for f, old, new in edits:
                q = os.path.join(t, f)
                s = open(q).read()
                if old not in s:
                    return name, prop, 'NOT FOUND %r' % old[:70]
                open(q, 'w').write(s.replace(old, new, 1))
            env = dict(os.environ, VERIF_REPO=t, VERIF_CACHE='%s/c%d' % (base, i))
            r = subprocess.run(['python3', os.path.join(HERE, 'all.py')] + os.environ.get('PROPS', '').split(), env=env, capture_output=True, text=True, timeout=1500)
            return name, prop, (r.stdout + ('' if r.stdout.strip() else r.stderr[-2000:])).strip()
        finally:
            pool.put(i)
    with ThreadPoolExecutor(jobs) as ex:
        for name, prop, out in ex.map(one, [x for x in P if not pat or pat.search(x[0])]):
            ls = out.splitlines()
            hit = [l for l in ls if l.startswith('V %s ' % prop)]
            other = sorted({l.split()[1] for l in ls if l.startswith('V ')} - {prop})
            print('%-7s %-28s %s %s' % ('ok' if hit else 'MISSED', name, prop, ('also ' + ' '.join(other)) if other else ''))
            if not hit or os.environ.get('SHOW'):
                for l in ls[:6]:
                    print('        ' + l[:220])
            sys.stdout.flush()


if __name__ == '__main__':
    main()
