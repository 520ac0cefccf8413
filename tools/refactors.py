"""Edits of the code under analysis that keep its behaviour: every rule has to stay quiet on them.
python3 tools/refactors.py FILE... [-k name] : applies each edit to a scratch copy and runs all the rules on it."""
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

HERE = os.path.dirname(os.path.abspath(__file__))
R = []


def r(name, *edits):
    R.append((name, edits))


def apply(tree, edits):
    for f, old, new in edits:
        p = os.path.join(tree, f)
        s = open(p).read()
        if s.count(old) < 1:
            return 'NOT FOUND %s: %r' % (f, old[:60])
        s = s.replace(old, new) if new.startswith('\0') else s.replace(old, new, 1)
        open(p, 'w').write(s.replace('\0', ''))
    return None


def main():
    args = sys.argv[1:]
    pat = None
    if '-k' in args:
        i = args.index('-k')
        pat = re.compile(args[i + 1])
        del args[i:i + 2]
    for f in args or [os.path.join(HERE, 'refactorings.py')]:
        exec(compile(open(f).read(), f, 'exec'), {'r': r})
    base = os.environ.get('RF', '/tmp/rf')
    jobs = int(os.environ.get('JOBS', '6'))
    pool = queue.Queue()
    for i in range(jobs):
        t = '%s/t%d' % (base, i)
        if not os.path.isdir(t):
            os.makedirs(base, exist_ok=True)
            subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
            subprocess.run(['cp', '-a', '/repo', t], check=True)
        pool.put(i)

    def one(x):
        name, edits = x
        i = pool.get()
        try:
            t = '%s/t%d' % (base, i)
            subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', t + '/'], check=False) if shutil.which('rsync') else \
                subprocess.run('cd %s && git checkout -q -- . && git clean -qfd -e target -e Cargo.lock' % t, shell=True)
            bad = apply(t, edits)
            if bad:
                return name, bad
            env = dict(os.environ, VERIF_REPO=t, VERIF_CACHE='%s/c%d' % (base, i))
            p = subprocess.run(['python3', os.path.join(HERE, 'all.py')] + (os.environ.get('PROPS', '').split()), env=env, capture_output=True, text=True, timeout=1500)
            return name, (p.stdout + ('' if p.stdout.strip() else p.stderr[-2500:])).strip()
        finally:
            pool.put(i)
    with ThreadPoolExecutor(jobs) as ex:
        for name, out in ex.map(one, [x for x in R if not pat or pat.search(x[0])]):
            lines = out.splitlines()
            quiet = lines and lines[-1].startswith('ALL quiet') and len(lines) == 1
            print(('ok   ' if quiet else 'LOOK ') + name)
            if not quiet:
                for l in lines[:12]:
                    print('     ' + l[:230])
            sys.stdout.flush()


main()
