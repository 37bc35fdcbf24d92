"""python3 -m larchsa.check C01 [--tier quick|thorough]"""
import argparse
import json
import os
import sys
import time

from .program import AnalysisBroken
from .run import run_jobs, REPO, load
from . import props

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')


def known(prop):
    """Findings which are recorded: {(rule, where): text}"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if not line.startswith('known: property=%s ' % prop):
                continue
            body = line.split(' ', 2)[2].strip()
            key = body.split(' :: ')
            out[(key[0], key[1])] = key[2] if len(key) > 2 else ''
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t = time.time()
    try:
        p = props.get(a.property)
        prog = load()
        jobs = p.jobs(prog, tier)
        results = run_jobs(jobs)
    except AnalysisBroken as e:
        print('ERROR: the analysis does not fit the code any more: %s' % e)
        return 2
    broken = [r for r in results if r.broken]
    prop = a.property
    found, seen = [], set()
    for r in results:
        for f in r.findings:
            if f.prop == prop and f.ident not in seen:
                seen.add(f.ident)
                found.append(f)
    listed = known(prop)
    new = [f for f in found if (f.rule, f.where) not in listed]
    old = [f for f in found if (f.rule, f.where) in listed]
    cases = sum(r.cases for r in results)
    undecided = []
    for r in results:
        for q, text in r.undecided:
            if q == prop and text not in undecided:
                undecided.append(text)
        for x in r.incomplete:
            undecided.append('%s: %s' % (r.label, x))
    stats = {}
    for r in results:
        for k, v in r.stats.items():
            stats[k] = stats.get(k, 0) + v
    functions = sorted(set(f for r in results for f in r.functions))
    wall = time.time() - t
    cov = {
        'explanation': p.explanation,
        'rule': p.rule,
        'source_root': REPO,
        'modules_parsed': len(prog.modules),
        'scenarios_analysed': len(results),
        'scenarios': [
            {'name': r.label, 'exit_states_judged': r.cases,
             'obligations': r.obligations,
             'seconds': round(r.seconds, 2)} for r in results],
        'exit_states_judged': cases,
        'obligations': sum(r.obligations for r in results),
        'functions_analysed': functions,
        'abstract_statements': stats.get('statements', 0),
        'abstract_calls': stats.get('calls', 0),
        'case_splits': stats.get('forks', 0),
        'states_merged': stats.get('merged', 0) + stats.get('joined', 0),
        'undecided': undecided[:60],
        'not_analysed': ['%s: %s' % (r.label, r.broken) for r in broken],
        'samples': [s for r in results for s in r.samples][:10],
    }
    os.makedirs(EVID, exist_ok=True)
    ev = {
        'property': prop, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other', 'coverage': cov, 'wall_s': round(wall, 2),
        'violations': len(new),
        'assumptions': p.assumptions,
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %d scenarios, %d exit states, %d obligations, %d functions, '
          '%d undecided, %.1f s' % (
              prop, len(results), cases, cov['obligations'], len(functions),
              len(undecided), wall))
    if a.verbose:
        for u in undecided:
            print('  UNDECIDED', u)
        for r in sorted(results, key=lambda r: -r.seconds)[:12]:
            print('  %6.2f s %6d %s' % (r.seconds, r.cases, r.label))
    for f in old:
        print('KNOWN-FINDING: property=%s %s at %s: %s' % (
            prop, f.rule, f.where, f.text))
    if new:
        path = os.path.join(EVID, prop + '.violation.json')
        with open(path, 'w') as fh:
            json.dump([{
                'property': f.prop, 'rule': f.rule, 'construct': f.where,
                'what': f.text, 'scenario': f.scenario,
                'entry_state': list(f.facts)} for f in new], fh, indent=1)
        for f in new:
            print('  [%s] %s: %s (%s)' % (
                f.rule, f.where, f.text, f.scenario))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for r in broken:
        print('%s: %s: the analysis does not fit the code any more: %s' % (
            'ERROR' if 2 * len(broken) > len(results) else 'NOT ANALYSED',
            r.label, r.broken))
    if 2 * len(broken) > len(results):
        return 2
    if not cases and not undecided:
        print('ERROR: nothing was analysed')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
