#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--learn] [-v]: decide one property on /repo's source."""
import json
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sa import harness  # noqa: E402
from sa.model import Model  # noqa: E402

KNOWN = os.path.join(HERE, 'known_findings.txt')
EXT = os.path.join(HERE, 'drivers', 'known_ext.json')


def known_findings():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip('\n')
            if line.startswith('known: property='):
                pid, rest = line[len('known: property='):].split(' ', 1)
                key, _, what = rest.partition(' || ')
                out[(pid, key.strip())] = what
    return out


def decide(pid, tier, repo='/repo', overrides=None, learn=False, only=None):
    model = Model(repo, overrides)
    ext = None
    if os.path.exists(EXT) and not learn:
        ext = set(json.load(open(EXT)).get(pid, ())) or None
    results = harness.run_drivers(model, pid, ext, tier, only)
    import importlib
    rules = []
    if os.path.exists(os.path.join(HERE, 'rules', pid.lower() + '.py')) and not only:
        rm = importlib.import_module('rules.' + pid.lower())
        rules = rm.run(model, tier)
    return model, results, rules


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    learn = '--learn' in argv
    verbose = '-v' in argv
    only = [a for a in argv[1:] if a.startswith('d_')]
    t0 = time.time()
    try:
        model, results, rules = decide(pid, tier, learn=learn, only=only or None)
    except harness.MissingAnchor as e:
        print('ERROR: public name %s is gone; the property cannot be located' % e)
        return 2
    allres = list(results) + list(rules)
    if learn:
        d = json.load(open(EXT)) if os.path.exists(EXT) else {}
        d[pid] = sorted(set().union(*[r.exts for r in results]) if results else ())
        json.dump(d, open(EXT, 'w'), indent=0, sort_keys=True)
    known = known_findings()
    viol, quiet = [], []
    for r in allres:
        for f in r.findings:
            (quiet if (pid, f.key) in known else viol).append(f)
    if verbose:
        for r in allres:
            print('%-50s ends=%d held=%d maybe=%d failed=%d cut=%d weak=%d %.1fs steps=%d %s' % (
                r.name, r.ends, sum(r.held.values()), sum(r.maybe.values()), sum(r.failed.values()),
                r.cut, r.weak, r.wall, r.steps, r.undecided or ''))
            for L, t in sorted(r.texts.items()):
                if not r.held.get(L) or r.maybe.get(L):
                    print('      line %d held=%d maybe=%d failed=%d %s' % (
                        L[0], r.held.get(L, 0), r.maybe.get(L, 0), r.failed.get(L, 0), t))
    obligations = sum(len(r.texts) + len(r.covers) for r in allres)
    discharged = sum(1 for r in allres if not r.undecided for L in r.texts
                     if r.held.get(L) and not r.maybe.get(L) and not r.failed.get(L)) + sum(
        1 for r in allres for c, hm in r.covers.items() if hm[0])
    visited = set().union(*[r.visited for r in allres]) if allres else set()
    callsites = set().union(*[r.callsites for r in allres]) if allres else set()
    undecided = ['%s: %s' % (r.name, r.undecided) for r in allres if r.undecided]
    undecided += ['%s: "%s" undecided on %d partitions' % (r.name, t, r.maybe[L])
                  for r in allres for L, t in r.texts.items() if r.maybe.get(L)]
    undecided += ['%s: %d partitions rest on unmodelled calls' % (r.name, r.weak)
                  for r in allres if r.weak]
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': 'other', 'wall_s': round(time.time() - t0, 3),
        'coverage': {
            'explanation': (
                'Path-sensitive abstract interpretation (typestate / dataflow over the syntax tree, '
                'callees inlined, unknown inputs kept as terms) of the protocol drivers listed '
                'under "rules" against the current source of /repo. An obligation is one check or '
                'reachability requirement of a driver; it is discharged when it definitely holds in '
                'every partition that reaches it, violated when it is definitely false in one.'),
            'rules': [{'driver': r.name, 'rule': r.rule if hasattr(r, 'rule') else r.name,
                       'partitions': r.ends, 'check_evaluations': sum(r.held.values()) +
                       sum(r.maybe.values()) + sum(r.failed.values()),
                       'loop_or_recursion_cuts': r.cut, 'steps': r.steps} for r in allres],
            'obligations': obligations, 'discharged': discharged,
            'undecided': undecided,
            'functions_analysed': len(visited), 'functions': sorted(visited),
            'external_call_sites': len(callsites),
            'partitions': sum(r.ends for r in allres),
            'violations': [f.key for f in viol], 'known_findings': [f.key for f in quiet],
        },
    }
    if not only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    for f in quiet:
        print('KNOWN-FINDING: property=%s %s || %s' % (pid, f.key, known[(pid, f.key)]))
    if obligations == 0:
        print('ERROR: no obligation was generated')
        return 2
    for r in allres:
        if r.undecided:
            print('UNDECIDED %s: %s' % (r.name, r.undecided))
    if not viol:
        print('%s: %d obligations, %d discharged, %d functions, %d partitions, %.1fs' % (
            pid, obligations, discharged, len(visited), sum(r.ends for r in allres),
            time.time() - t0))
        return 0
    out = os.path.join(HERE, 'evidence', 'violations')
    os.makedirs(out, exist_ok=True)
    for i, f in enumerate(viol):
        p = os.path.join(out, '%s-%d.txt' % (pid, i))
        body = ['property: ' + pid, 'obligation: ' + f.key, 'rule: ' + f.rule,
                'construct: ' + str(f.place), 'path:'] + f.path + ['facts of this path:'] + [
                    '  ' + x for x in f.facts]
        with open(p, 'w') as fh:
            fh.write('\n'.join(body) + '\n')
        print('  %s' % f.key)
        print('  rule: %s' % f.rule)
        print('  construct: %s' % f.place)
        print('VIOLATION property=%s replay=%s' % (pid, p))
    return 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
