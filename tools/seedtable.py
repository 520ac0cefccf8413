#!/usr/bin/env python3
"""Runs every rule on every planted bug and writes the table at the end of DESIGN.md.   python3 tools/seedtable.py [-k name]"""
import json
import os
import queue
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- table of planted bugs, written by tools/seedtable.py -->'


def main():
    pat = re.compile(sys.argv[2]) if '-k' in sys.argv else None
    base = os.environ.get('RF', '/tmp/st')
    jobs = int(os.environ.get('JOBS', '4'))
    pool = queue.Queue()
    for i in range(jobs):
        t = '%s/t%d' % (base, i)
        os.makedirs(base, exist_ok=True)
        if not os.path.isdir(t):
            subprocess.run(['git', 'clone', '-q', '/repo', t], check=True)
            subprocess.run(['cp', '/opt/vp/Cargo.lock', t], check=False)
        subprocess.run('cd %s && git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD' % t, shell=True)
        pool.put(i)
    ids = sorted(x for x in os.listdir(V + '/seeded') if os.path.isdir('%s/seeded/%s' % (V, x)) and (not pat or pat.search(x)))

    def one(x):
        i = pool.get()
        t = '%s/t%d' % (base, i)
        try:
            subprocess.run('cd %s && git checkout -q -- . && git apply %s/seeded/%s/patch.diff' % (t, V, x), shell=True, check=True)
            env = dict(os.environ, VERIF_REPO=t, VERIF_CACHE='%s/c%d' % (base, i))
            r = subprocess.run(['python3', V + '/tools/all.py'], env=env, capture_output=True, text=True, timeout=1500)
            hits = sorted({l.split()[1] for l in r.stdout.splitlines() if l.startswith('V ')})
            return x, hits
        finally:
            pool.put(i)
    rows = []
    with ThreadPoolExecutor(jobs) as ex:
        for x, hits in ex.map(one, ids):
            m = json.load(open('%s/seeded/%s/meta.json' % (V, x)))
            own = m['property'] in hits
            rows.append('| %s | %s | %s | %s |' % (x, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'),
                                                   ' '.join('**%s**' % h if h == m['property'] else h for h in hits) or 'none'))
            print('%-7s %s %s' % ('ok' if own else 'MISSED', x, ' '.join(hits)), flush=True)
    if not pat:
        p = V + '/DESIGN.md'
        s = open(p).read().split(MARK)[0].rstrip() + '\n\n'
        s += MARK + '\n\n| planted bug | needs | what it breaks | reported by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
        open(p, 'w').write(s)


if __name__ == '__main__':
    main()
