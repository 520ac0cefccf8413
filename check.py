#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current source.

Exit 0: no violation the known-findings file does not list.  Exit 1: a violation.
Exit 2: the source could not be analysed at all (it does not compile)."""
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.setrecursionlimit(20000)
import dumps as D          # noqa: E402

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known(prop):
    """violation keys listed as known findings of a property"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                r[key[len('key='):]] = text
    return r


def rule_of(prop):
    import importlib
    for m in ('rules_wire', 'rules_conn', 'rules_rt', 'rules_num', 'rules_api'):
        f = getattr(importlib.import_module(m), prop, None)
        if f is not None:
            return f
    raise SystemExit('no rule for ' + prop)


def safe(key):
    return ''.join(ch if ch.isalnum() or ch in '._-' else '_' for ch in key)[:100]


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    out = os.path.join(VERIF, 'evidence')
    os.makedirs(out, exist_ok=True)
    try:
        paths, hsh = D.dumps()
    except D.BuildError as e:
        print('ERROR: the source does not build: %s' % e)
        return 2
    import rulekit
    import targets
    # an exploration that grows too large is given up: no answer, not an alarm
    rulekit.DEADLINE[0] = t0 + 600

    def late(*_):
        raise targets.Abort('out of time')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(780)
    T = targets.Targets(paths)
    c = rulekit.Ctx(T, prop)
    gaps = []
    try:
        rule_of(prop)(c)
    except targets.Missing as e:
        gaps.append('anchor not found: %s' % e)
    except targets.Abort as e:
        gaps.append('exploration given up: %s' % e)
    except Exception as e:      # a shape of code the rule was not written for: no answer, not an alarm
        gaps.append('internal: %s: %s' % (type(e).__name__, e))
        traceback.print_exc(file=sys.stdout)
    signal.alarm(0)
    for what, n in c.floors:
        if c.counts.get(what, 0) < n:
            gaps.append('only %d of at least %d %s found' % (c.counts.get(what, 0), n, what))
    kn = known(prop)
    news, olds = [], []
    rd = os.path.join(out, 'replay')
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(prop + '.'):
            os.unlink(os.path.join(rd, f))
    for key, (msg, trace) in sorted(c.violations.items()):
        if key in kn:
            olds.append((key, msg))
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, msg))
            continue
        p = os.path.join(rd, '%s.%s.txt' % (prop, safe(key)))
        with open(p, 'w') as f:
            f.write('property: %s\nkey: %s\nviolation: %s\nsource: %s (%s)\n\npath (function: what happens there):\n' % (prop, key, msg, D.REPO, hsh))
            for l in trace:
                f.write('  %s\n' % l)
        news.append((key, msg, p))
    for n in c.notes:
        print('note: %s' % n[:300])
    for g in gaps:
        print('INCONCLUSIVE: property=%s %s' % (prop, g))
    for key, msg, p in news:
        print('%s: %s' % (key, msg))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    funcs = sorted(c.functions)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': {
              'explanation': ' '.join(c.rules),
              'counts': dict(sorted(c.counts.items())),
              'functions_analysed': funcs,
              'number_of_functions_analysed': len(funcs),
              'inconclusive': gaps,
              'not_understood': c.notes,
              'known_findings_seen': ['%s: %s' % k for k in olds],
              'source': D.REPO, 'source_hash': hsh,
              'samples': c.samples[:3] or ['no path']},
          'assumptions': c.assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(news)}
    with open(os.path.join(out, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if not news:
        print('OK property=%s (%s)%s' % (prop, ', '.join('%s: %d' % x for x in list(sorted(c.counts.items()))[:6]),
                                        ' INCONCLUSIVE' if gaps else ''))
    return 1 if news else 0


if __name__ == '__main__':
    sys.exit(main())
