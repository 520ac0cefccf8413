#!/usr/bin/env python3
"""Makes planted bugs in /verif/seeded out of specifications, and tries them.

usage: mkseed.py SPECS.py [ID ...]      (SPECS.py defines SEEDS, a list of dicts: id, prop, edits, needs, breaks, main)
Each is tried in a scratch worktree: it applies and changes original lines, builds, passes the stable tests, its
demonstration passes without and fails with it, and the property's check reports it or not (printed)."""
import json
import os
import re
import shutil
import subprocess as sp
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seed/w'
BASE = sp.run('git -C /repo rev-list --max-parents=0 HEAD', shell=True, capture_output=True, text=True).stdout.split()[-1]


def run(cmd, **kw):
    return sp.run(cmd, shell=True, capture_output=True, text=True, **kw)


def original(patch):
    """does some hunk change a line of the base commit?"""
    f, ok = None, False
    for l in patch.split('\n'):
        if l.startswith('--- a/'):
            f = l[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m:
            at, n = int(m[1]), int(m[2] or 1)
            b = run('git -C /repo blame -s -l -L %d,%d HEAD -- %s' % (max(at, 1), max(at + n - 1, 1), f)).stdout.split('\n')
            b = [x for x in b if x]
            olds = [x.lstrip('^').startswith(BASE[:30]) for x in b]
            ok |= any(olds) if n else all(olds)
    return ok


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    if not os.path.exists(W):
        os.makedirs('/tmp/seed', exist_ok=True)
        run('git clone -q /repo %s' % W)
        shutil.copy('/opt/vp/Cargo.lock', W + '/Cargo.lock')
    for s in ns['SEEDS']:
        if want and s['id'] not in want:
            continue
        run('git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD; git -C %s checkout -q --detach FETCH_HEAD' % (W, W, W))
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        bad = None
        for e in s['edits']:
            p = os.path.join(W, e[0])
            t = open(p).read()
            if t.count(e[1]) < 1:
                bad = 'NOT FOUND: %s' % e[1]
                break
            open(p, 'w').write(t.replace(e[1], e[2], 1))
        if bad:
            print(s['id'], bad)
            continue
        patch = run('git -C %s diff' % W).stdout
        p0 = run('git -C %s diff -U0' % W).stdout
        open(d + '/patch.diff', 'w').write(patch)
        shutil.copy(V + '/tools/demo/demo.sh', d)
        shutil.copy(V + '/tools/demo/common.rs', d)
        open(d + '/main.rs', 'w').write('#![allow(unused)]\nmod common;\nuse common::*;\n' + s['main'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        res = []
        if not original(p0):
            res.append('NOT-ORIGINAL')
        env = dict(os.environ, CARGO_TARGET_DIR='/tmp/seed/target')
        t = run('cd %s && cargo test --offline --workspace --all-features --lib' % W, env=env)
        if t.returncode != 0:
            res.append('TESTS FAIL ' + '\n'.join(l for l in (t.stdout + t.stderr).split('\n') if 'error' in l or 'FAILED' in l or 'panicked' in l)[:600])
        with_ = run('cd %s && bash %s/demo.sh' % (W, d))
        run('git -C %s checkout -q -- .' % W)
        clean = run('cd %s && bash %s/demo.sh' % (W, d))
        if clean.returncode != 0:
            res.append('DEMO FAILS CLEAN %s' % (clean.stdout + clean.stderr)[-700:])
        if with_.returncode == 0 or with_.returncode in (98, 99):
            res.append('DEMO PASSES PATCHED %s' % (with_.stdout + with_.stderr)[-300:])
        run('git -C %s apply %s/patch.diff' % (W, d))
        c = run('python3 %s/tools/all.py %s' % (V, '' if os.environ.get('ALLP') else s['prop']), env=dict(os.environ, VERIF_REPO=W, VERIF_CACHE='/tmp/seed/cache'))
        out = [l for l in c.stdout.split('\n') if l.startswith(('V ', '? '))]
        caught = any(l.startswith('V %s ' % s['prop']) for l in out)
        print('%-28s %s %s %s' % (s['id'], 'ok' if not res else 'BAD', 'caught' if caught else 'MISSED', '; '.join(out)[:150]), flush=True)
        for r in res:
            print('    ', r)
        run('git -C %s checkout -q -- .' % W)


main()
