#!/usr/bin/env python3
"""Runs every rule on one tree (VERIF_REPO), sharing the graphs; one line per alarm or gap. For development."""
import os
import sys
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
import dumps as D        # noqa: E402
import rulekit           # noqa: E402
import targets           # noqa: E402
import check             # noqa: E402


def main():
    want = sys.argv[1:]
    t0 = time.time()
    try:
        paths, h = D.dumps()
    except D.BuildError as e:
        print('BUILD', str(e)[-300:])
        return 2
    T = targets.Targets(paths)
    bad = []
    for i in range(1, 39):
        p = 'C%02d' % i
        if want and p not in want:
            continue
        c = rulekit.Ctx(T, p)
        gaps = []
        rulekit.DEADLINE[0] = time.time() + float(os.environ.get('BUDGET', '300'))
        try:
            check.rule_of(p)(c)
        except (targets.Missing, targets.Abort) as e:
            gaps.append(str(e)[:200])
        except Exception as e:
            gaps.append('internal %s %s' % (type(e).__name__, str(e)[:200]))
        for what, n in c.floors:
            if c.counts.get(what, 0) < n:
                gaps.append('floor %s: %d<%d' % (what, c.counts.get(what, 0), n))
        kn = check.known(p)
        for k, v in sorted(c.violations.items()):
            if k not in kn:
                bad.append(p)
                print('V %s %s: %s' % (p, k, v[0][:220]))
                if os.environ.get('TRACE'):
                    print('\n'.join('      ' + l[:700] for l in v[1][-int(os.environ['TRACE']):]))
        for g in gaps:
            print('? %s %s' % (p, g))
        if os.environ.get('NOTES'):
            for n in c.notes:
                print('n %s %s' % (p, n[:200]))
    print('ALL %s (%.0fs)' % (' '.join(sorted(set(bad))) or 'quiet', time.time() - t0))


if __name__ == '__main__':
    sys.exit(main())
