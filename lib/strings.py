"""Strings as sequences: histories of spec/StringSeq.tla replayed and
validated (spec/StringTrace.tla)."""
import json
import os

import emit
from core import Builder, Config, ModelError, log, run_lines, ints, TIER
from parsers import refused_ids

FIELDS = ('size', 'empty', 'ends', 'fwd', 'bwd', 'at', 'cstr', 'targs', 'iter')


def length_ok(case, limit):
    n = len(case['init'])
    m = n
    for o in case['ops']:
        n += {'pb': 1, 'pf': 1, 'xb': -1, 'xf': -1}.get(o['op'], 0)
        if o['op'] == 'cl':
            n = 0
        m = max(m, n, len(o.get('w', ())))
    return m <= limit


def minus_one(case):
    return -1 in case['init'] or any(o.get('c') == -1 or -1 in o.get('w', ()) for o in case['ops'])


def line(case):
    ops = 'vp::nil'
    for o in reversed(case['ops']):
        k = o['op']
        t = {'new': 'vp::nw', 'xb': 'vp::xb', 'xf': 'vp::xf', 'cl': 'vp::cl'}.get(k)
        if k in ('pb', 'pf'):
            t = 'vp::%s<%d>' % (k, o['c'])
        if k == 'eq':
            t = 'vp::eq<%s >' % emit.text(o['w'])
        ops = 'vp::L<%s, %s >' % (t, ops)
    return 'vp::history<%s, %s >(%d);' % (ops, emit.text(case['init']), case['id'])


def events(case, text):
    evs = []
    ls = [] if text is None else text.splitlines()[1:]
    for i, o in enumerate(case['ops']):
        e = dict(o)
        if i >= len(ls):
            e['op'] = 'nocompile'
            evs.append(e)
            break
        l = ls[i]
        if l.startswith('O '):
            parts = [ints(x) for x in l[2:].split('|')]
            obs = dict(zip(FIELDS, parts))
            obs['size'] = (obs['size'] or [None])[0]
            obs['empty'] = (obs['empty'] or [None])[0]
            e['obs'] = obs
        else:
            e['res'] = ints(l[2:])
        evs.append(e)
    return evs


def validate(chk, scratch, recs):
    """recs: list of (case, conf, events, note) -> refused ones"""
    lines = {}
    for n, (c, conf, ev, note) in enumerate(recs):
        lines.setdefault(json.dumps({'init': c['init'], 'ev': ev}, sort_keys=True), []).append(n)
    items = list(lines.items())
    refused = []
    while items:
        path = os.path.join(scratch, 'trace.json')
        with open(path, 'w') as f:
            for n, (b, _) in enumerate(items):
                d = json.loads(b)
                d['id'] = n
                f.write(json.dumps(d) + '\n')
        verdict, out = chk.tlc('StringTrace', 'StringTrace.cfg', {'VP_TRACE': path}, scratch)
        if verdict == 'ok':
            break
        bad = refused_ids(out, len(items))
        for b in bad:
            refused += [recs[n] for n in items[b][1]]
        items = [x for n, x in enumerate(items) if n not in bad]
        if len(refused) >= 8:
            break
    chk.cov['traces_validated_against_impl'] += len(recs)
    chk.cov['distinct_traces'] = chk.cov.get('distinct_traces', 0) + len(lines)
    return refused


def record(scratch, plan):
    b = Builder(scratch, 'vp_str.hpp')
    jobs = [(conf, c['id'], line(c)) for c, conf in plan]
    results, notes = run_lines(b, jobs, batch=120, size=24000)
    recs = []
    for c, conf in plan:
        if (conf.name, c['id']) in results:
            recs.append((c, conf, events(c, results[(conf.name, c['id'])]),
                         notes.get((conf.name, c['id']), '')))
    return recs


def check_strings(chk, scratch):
    q = TIER != 'thorough'
    verdict, out = chk.tlc('StringSeq', 'StringSeq.cfg', {}, scratch)
    if verdict != 'ok':
        raise ModelError('StringSeq refutes itself: ' + out[-2000:])
    path = os.path.join(scratch, 'hist.json')
    chk.tlc('StringGen', 'StringGen.cfg', {'VP_OUT': path, 'VP_TIER': TIER}, scratch, workers=1)
    cases = []
    for n, l in enumerate(open(path)):
        c = json.loads(l)
        c['id'] = n
        cases.append(c)
    chk.cov['samples'] += len(cases)
    log('%d histories generated' % len(cases))
    confs = [(Config('g17', 'c++17'), 10 ** 6, 1), (Config('g11', 'c++11'), 10 ** 6, 2 if q else 1),
             (Config('g98', 'c++98'), 32, 1),
             (Config('g98w', 'c++98', ['-DBOOST_METAPARSE_LIMIT_STRING_SIZE=70']), 70, 9 if q else 3),
             (Config('g98n', 'c++98', ['-DBOOST_METAPARSE_LIMIT_STRING_SIZE=5']), 5, 4 if q else 1),
             (Config('c17', 'c++17', cxx='clang++'), 10 ** 6, 12 if q else 2),
             (Config('g23', 'c++23'), 10 ** 6, 9 if q else 3),
             (Config('c98', 'c++98', cxx='clang++'), 32, 24 if q else 4)]
    plan = []
    for conf, limit, every in confs:
        for c in cases:
            if c['id'] % every == 0 and length_ok(c, limit):
                plan.append((c, conf))
    recs = record(scratch, plan)
    log('%d histories replayed' % len(recs))
    bad = validate(chk, scratch, recs)
    if bad:
        again = record(scratch, [(c, conf) for c, conf, _, _ in bad[:20]])
        for c, conf, ev, note in validate(chk, scratch, again):
            chk.violation('%s: init %s ops %s: last %s %s' % (conf.name, c['init'], c['ops'],
                                                            json.dumps(ev[-1])[:300], note),
                          {'case': c, 'config': conf.name, 'ev': ev, 'line': line(c)})
