#!/usr/bin/env python3
"""Decides one property on /repo's current source.  Usage: run.py C05

Exit 0: the property's obligations are discharged (or what is outside the
verifier's reach stood up to the bounded search).  Exit 1 with a VIOLATION line
otherwise.
"""
import concurrent.futures
import json
import os
import re
import sys
import time

import pipeline as P
import models
import props
import engine

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def tags_of(key):
    C = P.contracts.C
    t = [a for a, _ in C.get(key, {}).get('ensures', [])]
    m = re.match(r'(.*) for (.*)::(\w+)$', key)
    if m:
        t += [a for a, _ in C.get('trait %s::%s' % (m.group(1), m.group(3)), {}).get('ensures', [])]
    return t


def known_findings(prop):
    out = []
    p = os.path.join(P.ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) (.*)', l)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    return out


def write_replay(prop, data):
    d = os.path.join(P.WORK, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + '.json')
    json.dump(data, open(p, 'w'), indent=1)
    return p


def main():
    prop = sys.argv[1]
    assert prop in props.ALL
    os.makedirs(P.WORK, exist_ok=True)
    os.makedirs(os.path.join(P.ROOT, 'evidence'), exist_ok=True)
    P.build_tools()
    log('expanding /repo')
    ex = P.extract(P.expand(P.REPO, 'repo'), 'repo')
    items = {i['key']: i for i in ex['items'] if i['kind'] == 'fn'}
    log('%d functions extracted' % len(items))
    gold = json.load(open(os.path.join(P.ROOT, 'golden', 'shape.json')))

    keys = [k for k in P.contracts.C if not k.startswith(('trait ', 'impl '))]
    only = None
    if TIER == 'quick':
        only = {k for k in keys if props.wanted(prop, k, tags_of(k))}
    lem = None
    if prop in ('C01', 'C19'):
        with concurrent.futures.ThreadPoolExecutor(1) as pool:
            fut = pool.submit(P.lemmas, ex, 'lemmas-' + prop)
            v = P.verify(ex, only=only, name='proof-' + prop, log=log)
            lem = fut.result()
        log('lemmas from contracts to the property: %d discharged, %d failed, %d of %d must-fail guards failed, %.0fs'
            % (lem.verified, len(lem.failed), len(lem.guards_failed), len(lem.guards), lem.wall))
    else:
        v = P.verify(ex, only=only, name='proof-' + prop, log=log)
    log('verifier: %d obligations discharged, %d failed, %d of %d must-fail guards failed, %.0fs'
        % (v.verified, max(0, v.errors - v.canaries_failed), v.canaries_failed, v.canaries, v.wall))

    # what the verifier could not be asked
    reach = dict(v.skipped)
    for k in v.missing:
        if only is None or k in only:
            reach[k] = 'no longer exists under this name'
    for k in v.limits:
        reach[k] = 'solver gave up'
    for k, w in v.lost.items():
        reach[k] = w
    fails = []
    for f in v.failures:
        k = f['key']
        if k in items and P.loops_differ(items[k], gold):
            reach[k] = 'loops differ from the ones the invariants were written for'
        if k not in reach:
            fails.append(f)
    if ex.get('scoped_problem'):
        reach['ScopedStackEntry'] = str(ex['scoped_problem'])
    tool_trouble = list(v.unmapped)
    if lem:
        # the lemmas depend on types and contracts, not on bodies
        tool_trouble += lem.trouble + ['lemma %s: %s' % f for f in lem.failed]
    if not v.verified or v.vacuous:
        if v.vacuous:
            log('VACUOUS preconditions: ' + ', '.join(v.vacuous))
        tool_trouble.append('no obligations' if not v.verified else 'a must-fail guard did not fail')
    dropped_changed = sorted(set(ex['dropped']) ^ set(gold['dropped']))

    hard = [f for f in fails if prop in props.hard(f['key'], f['tag'])]
    soft = [f for f in fails if prop in props.soft(f['key'], f['tag'])]
    for f in fails:
        log('failed obligation: %s [%s] %s -> %s' % (f['key'], f['tag'], f['message'], ','.join(props.hard(f['key'], f['tag']))))
    for k, w in reach.items():
        log('outside the verifier\'s reach: %s: %s' % (k, w))
    for t in tool_trouble:
        log('verifier trouble: ' + t[:300])

    # concrete inputs
    diff = engine.changed()
    hit = None
    s = None
    if diff or fails or reach or tool_trouble or dropped_changed:
        log('source differs from the reference copy in: ' + ', '.join(diff or ['nothing']))
        err = engine.build()
        if err:
            log('search program does not build against this tree:\n' + err)
            reach['search'] = 'the search program does not build against this tree'
            if prop == 'C18' and 'E0599' in err:
                # a typed accessor that callers can no longer call answers for no kind at all
                hard += [{'key': k, 'tag': 'missing', 'message': 'the accessor is not there any more', 'clause': None, 'text': err}
                         for k in v.missing if '::get_' in k]
        else:
            s = engine.Search(SEED, prop)
            if TIER == 'quick':
                plan = [12, 25, 40] if (hard or soft) else [12, 25] if (fails or reach or tool_trouble) else [15]
            else:
                plan = [60, 120] if not (hard or soft) else [60, 120, 180]
            for secs in plan:
                s.run(secs)
                hit = s.for_prop(prop)
                if hit:
                    break
            log('search: %d cases in %.0fs, %d differences, %d worker deaths' % (s.cases, s.secs, len(s.found), len(s.deaths)))
            if hard and s.found and not hit:
                # an obligation of this property fails, and this input shows the code behaving differently
                hit = min(s.found, key=lambda f: (f['stage'], f['size']))
            if s.found and not hit:
                f = min(s.found, key=lambda f: (f['stage'], f['size']))
                log('differences found belong to other properties, e.g. %s: %s' % (','.join(f['sure'] + f['staged']), f['what'][:300]))

    extra = []
    if prop == 'C17':
        import guids
        extra = guids.check(TIER, log)
    modelled, wrong = models.check(prop, log)
    tool_trouble += ['a model is wrong: ' + w for w in wrong]

    violation = None
    if hit:
        violation = write_replay(prop, {'property': prop, 'what': hit['what'], 'input': hit['input'],
                                        'failed_obligations': [{k: f.get(k) for k in ('key', 'tag', 'message', 'clause')} for f in hard + soft][:10],
                                        'replay': 'bash check/replay.sh <this file>   (runs the input on /repo\'s code and on the reference copy)'})
        line = 'VIOLATION property=%s replay=%s' % (prop, violation)
        log('on a concrete input: ' + hit['what'][:500])
    elif any(not e['ok'] for e in extra):
        violation = write_replay(prop, {'property': prop, 'checks': extra})
        line = 'VIOLATION property=%s replay=%s' % (prop, violation)
        if not any(e.get('input') for e in extra if not e['ok']):
            line += ' no-failing-input-found'
    elif hard:
        violation = write_replay(prop, {'property': prop, 'failed_obligations': hard, 'verifier_command': ' '.join(v.cmd),
                                        'note': 'the obligation failed; no concrete input was found in %d cases' % (s.cases if s else 0)})
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, violation)

    mine = {k: [t for t in tags_of(k) if prop in props.hard(k, t) or prop in props.soft(k, t)] for k in v.functions}
    ms = v.times.get('smt', {}) if isinstance(v.times, dict) else {}
    obligations = v.verified + max(0, v.errors - v.canaries_failed)
    cov = {
        'obligations': obligations,
        'discharged': v.verified,
        'checker_cmd': 'python3 check/run.py %s  (runs: %s)' % (prop, ' '.join(v.cmd)),
        'back_end': 'Verus %s with its bundled Z3' % v.times.get('verus-build', {}).get('version', '?'),
        'solver_ms': ms.get('smt-run', ms.get('total')),
        'verifier_wall_s': round(v.wall, 1),
        'functions_verified_this_run': len(v.functions),
        'functions_under_contract': len([k for k in P.contracts.C if not k.startswith(('trait ', 'impl ', 'const '))]),
        'contract_clauses_bearing_on_this_property': sum(len(t) for t in mine.values()),
        'must_fail_guards': {'expected': v.canaries, 'failed_as_required': v.canaries_failed},
        'functions': sorted(v.functions),
        'callees_used_by_contract_only': 'every other contracted function; its body is verified by the checks of the properties it bears on and by this check in the thorough tier' if only is not None else 'none',
        'not_extracted': ex['dropped'],
        'outside_reach_this_run': reach,
        'failed_obligations': [{k: f.get(k) for k in ('key', 'tag', 'message')} for f in fails],
        'trusted_base': ['Verus and Z3', 'rustc macro expansion', '/verif/tools/extract (mechanical rewriting of bodies, listed in DESIGN.md)',
                         'models of std, byteorder, indexmap, flate2 in proof/prelude.rs'] + ['contract of ' + t for t in v.trusted],
    }
    if lem:
        cov['obligations'] += lem.verified + len(lem.failed)
        cov['discharged'] += lem.verified
        cov['must_fail_guards']['expected'] += len(lem.guards)
        cov['must_fail_guards']['failed_as_required'] += len(lem.guards_failed)
        cov['lemmas_from_contracts'] = {'discharged': lem.verified, 'failed': lem.failed, 'wall_s': round(lem.wall, 1), 'checker_cmd': ' '.join(lem.cmd)}
    if extra:
        cov['other_checks'] = extra
    if modelled:
        cov['models_compared'] = modelled
    if s:
        cov['bounded_search'] = {'label': 'bounded, not counted as proved', 'cases': s.cases, 'seconds': round(s.secs, 1),
                                 'bound': 'random and mutated inputs of nesting depth <= 4, compared with the reference copy'}
    ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'proof', 'coverage': cov,
          'wall_s': round(time.time() - T0, 1), 'assumptions': P.assumptions(), 'violations': 1 if violation else 0}
    json.dump(ev, open(os.path.join(P.ROOT, 'evidence', prop + '.json'), 'w'), indent=1)

    if violation:
        print(line, flush=True)
        return 1
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k), flush=True)
    if tool_trouble and not diff:
        # nothing changed and yet the verifier did not answer: that is not a pass
        log('the verifier gave no usable answer on an unchanged tree')
        return 2
    log('%s holds: %d obligations discharged' % (prop, v.verified + (lem.verified if lem else 0)))
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except P.Broken as e:
        print('BROKEN: ' + str(e), flush=True)
        code = 2
    sys.exit(code)
