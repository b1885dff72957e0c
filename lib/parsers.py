"""Checks deciding properties of parsers: sessions generated from the
specification (spec/Families.tla) are replayed into the library; what the
library did is validated as a behaviour of spec/Session.tla."""
import json
import os
import time

import emit
from core import (Builder, Config, ModelError, log, parse_output, run_lines, TIER)

G17 = Config('g17', 'c++17', variant=0)
G11 = Config('g11', 'c++11', variant=1)
G14 = Config('g14', 'c++14', variant=2, container='mixed')
G98 = Config('g98', 'c++98', variant=3)
G98V = Config('g98v', 'c++98', variant=5, container='mixed98')
G17L = Config('g17l', 'c++17', variant=6, container='list')
C17 = Config('c17', 'c++17', cxx='clang++', variant=4)
C98 = Config('c98', 'c++98', cxx='clang++', variant=7)

# another implementation than the language standard's own
G20 = Config('g20', 'c++20', variant=16)
G23 = Config('g23', 'c++23', variant=17)
C11 = Config('c11', 'c++11', cxx='clang++', variant=18)
C14 = Config('c14', 'c++14', cxx='clang++', variant=19)
C23 = Config('c23', 'c++23', cxx='clang++', variant=20)
F98 = Config('f98', 'c++17', ('-DBOOST_METAPARSE_STD=1998',), variant=14)
F11 = Config('f11', 'c++17', ('-DBOOST_METAPARSE_STD=2011',), variant=15)

# texts that fill the string exactly, or all but
G98T = Config('g98t', 'c++98', variant=12, limits={'string': 4})
G98T.lengths = (3, 4)

G98W = Config('g98w', 'c++98', variant=8, limits={'seq': 9, 'ocx': 14, 'string': 70})
G98N = Config('g98n', 'c++98', variant=9, limits={'seq': 3, 'ocx': 2, 'oneof': 4, 'string': 6})
MPL30 = ('-DBOOST_MPL_CFG_NO_PREPROCESSED_HEADERS', '-DBOOST_MPL_LIMIT_VECTOR_SIZE=30', '-DBOOST_MPL_LIMIT_LIST_SIZE=30')
G98X = Config('g98x', 'c++98', MPL30, variant=10, limits={'seq': 30, 'ocx': 30, 'oneof': 30, 'string': 40})
G17W = Config('g17w', 'c++17', variant=13, limits={'seq': 16, 'ocx': 3, 'oneof': 2, 'string': 7})
C98W = Config('c98w', 'c++98', cxx='clang++', variant=11, limits={'seq': 7, 'ocx': 5, 'oneof': 19, 'string': 33})


def generate(chk, scratch, prop, machine):
    out = os.path.join(scratch, 'cases.json')
    env = {'VP_PROP': prop, 'VP_TIER': TIER, 'VP_OUT': out, 'VP_MACHINE': machine}
    chk.tlc('Generate', 'Generate.cfg', env, scratch, timeout=800, workers=1)
    log('generated')
    verdict, text = chk.tlc('Explore', 'Explore.cfg', env, scratch, timeout=800)
    if verdict != 'ok':
        raise ModelError('the specification refutes itself:\n' + text[-3000:])
    cases = []
    with open(out) as f:
        for n, l in enumerate(f):
            c = json.loads(l)
            c['id'] = n
            cases.append(c)
    return cases


def fits(case, conf):
    if len(case['in']) not in getattr(conf, 'lengths', (len(case['in']),)):
        return False
    if conf.is98():
        return emit.fits98(case, **conf.limits)
    return True


def record(builder, plan):
    """plan: list of (case, config) -> recorded sessions."""
    jobs = [(conf, c['id'], emit.session(c, conf.container, conf.variant)) for c, conf in plan]
    results, notes = run_lines(builder, jobs)
    recs = []
    for c, conf in plan:
        if (conf.name, c['id']) not in results:
            continue            # sibling of a confirmed compile failure
        t = results[(conf.name, c['id'])]
        if t is None:
            ev = [{'st': 'nocompile', 'res': [], 'rem': [], 'pos': [], 'msg': []}]
        else:
            ev = parse_output(t).get(c['id'], [])
            if not ev:
                ev = [{'st': 'nocompile', 'res': [], 'rem': [], 'pos': [], 'msg': []}]
        recs.append((c, conf, ev, notes.get((conf.name, c['id']), '')))
    return recs


def validate(chk, scratch, recs, asp):
    """Validates recorded sessions with TLC; -> refused records."""
    lines = {}
    for n, (c, conf, ev, note) in enumerate(recs):
        evs = [dict(e, p=c['ps'][i]) for i, e in enumerate(ev)]
        body = {'in': c['in'], 'start': c['start'], 'asp': asp, 'n': len(c['ps']), 'ev': evs}
        lines.setdefault(json.dumps(body, sort_keys=True), []).append(n)
    refused = []
    items = list(lines.items())
    CH = 20000
    for k in range(0, len(items), CH):
        chunk = items[k:k + CH]
        while True:
            path = os.path.join(scratch, 'trace.json')
            with open(path, 'w') as f:
                for n, (b, _) in enumerate(chunk):
                    d = json.loads(b)
                    d['id'] = n
                    f.write(json.dumps(d) + '\n')
            verdict, out = chk.tlc('Trace', 'Trace.cfg', {'VP_TRACE': path}, scratch, timeout=800)
            if verdict == 'ok':
                break
            bad = refused_ids(out, len(chunk))
            for b in bad:
                refused += [recs[n] for n in chunk[b][1]]
            # the rest of the chunk may hold other refusals: keep looking a little
            chunk = [x for n, x in enumerate(chunk) if n not in bad]
            if len(refused) >= 8 or not chunk:
                break
        if len(refused) >= 8:
            break
    chk.cov['traces_validated_against_impl'] += len(recs)
    chk.cov['distinct_traces'] = chk.cov.get('distinct_traces', 0) + len(items)
    return refused


def refused_ids(out, n):
    import re
    # the counterexample's initial state names the trace: sid = N (1-based)
    ids = {int(x) - 1 for x in re.findall(r'^/\\ sid = (\d+)', out, re.M)}
    ids |= {int(x) for x in re.findall(r'<<"REFUSED", (\d+),', out)}
    ids = {i for i in ids if 0 <= i < n}
    if not ids:
        raise ModelError('cannot tell which trace was refused:\n' + out[-2000:])
    return ids


def describe(c, conf, ev, note):
    return '%s: input %s at %s, parsers %s: library gave %s %s' % (
        conf.name, c['in'], c['start'], json.dumps(c['ps']), json.dumps(ev), note)


def check_parsers(chk, scratch, prop, asp, configs, machine, sample=None):
    cases = generate(chk, scratch, prop, machine)
    chk.cov['samples'] += len(cases)
    log('%s: %d sessions generated' % (prop, len(cases)))
    b = Builder(scratch)
    plan = []
    for conf, every in configs:
        n = 0
        for c in cases:
            if (c['id'] + conf.variant) % every == 0 and emit.fits_any(c, **conf.limits) and fits(c, conf):
                plan.append((c, conf))
                n += 1
        chk.cov['sessions_' + conf.name] = n
    recs = record(b, plan)
    log('%s: %d sessions replayed in %d translation units' % (prop, len(recs), b.compiled))
    bad = validate(chk, scratch, recs, asp)
    log('%s: validated, %d refused' % (prop, len(bad)))
    if bad:
        # confirm by replaying the refused sessions from scratch
        again = record(Builder(scratch), [(c, conf) for c, conf, _, _ in bad[:20]])
        for r in validate(chk, scratch, again, asp):
            chk.violation(describe(*r), {'in': r[0]['in'], 'start': r[0]['start'],
                                         'ps': r[0]['ps'], 'config': r[1].name, 'ev': r[2],
                                         'line': emit.session(r[0], r[1].container, r[1].variant)})


def editor_probe(chk, scratch):
    """C01: positions as an editor shows them; one probe per line ending."""
    chars = {'k': 'one_char'}
    b = Builder(scratch)
    for n, w in enumerate(([10, 97], [13, 97], [13, 10, 97], [97, 97])):
        case = {'id': n, 'in': w, 'start': [1, 1, 0], 'ps': [chars] * len(w)}
        for conf in (G17, G98):
            (c, _, ev, note), = record(b, [(case, conf)])
            body = {'id': n, 'in': w, 'start': case['start'], 'asp': 'pos', 'n': len(w),
                    'ev': [dict(e, p=chars) for e in ev]}
            path = os.path.join(scratch, 'probe.json')
            with open(path, 'w') as f:
                f.write(json.dumps(body) + '\n')
            verdict, out = chk.tlc('Trace', 'TraceEditor.cfg', {'VP_TRACE': path}, scratch, workers=1)
            if verdict != 'ok':
                end = ev[-1]['pos'] if ev else None
                chk.violation('%s: after %s the position is %s' % (conf.name, w, end),
                              {'in': w, 'ev': ev, 'config': conf.name,
                               'known_key': 'text %s ends at %s' % (w, end)})
