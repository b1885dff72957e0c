"""The grammar language (spec/Grammar.tla) replayed and validated."""
import json
import os

import emit
from core import Builder, Config, ModelError, log, parse_output, run_lines, TIER
from parsers import refused_ids

LIM = {}
CONFS = [(Config('g17', 'c++17'), 1), (Config('g98', 'c++98', variant=1, limits=LIM), 2),
         (Config('g11', 'c++11', variant=2), 3), (Config('c17', 'c++17', cxx='clang++', variant=3), 12)]


def source(case, conf):
    """-> (type expression of the grammar, uses)"""
    e = emit.Emitter(case['id'] * 7 + conf.variant)
    start = emit.tpl('mp::string', map(str, case['start']))
    if case['start'] == [83] and (case['id'] + conf.variant) % 3:
        g = 'mp::grammar<>'
    else:
        g = 'mp::grammar<%s >' % start
    uses = []
    for n, x in enumerate(case['ev']):
        if x['op'] == 'import':
            g += '::import<%s, %s >' % (emit.tpl('mp::string', map(str, x['name'])), e.term(x['p']))
        elif x['op'] == 'rule':
            act = ''
            if x['act']:
                act = ', vp::tf<%d>' % x['act'] if (case['id'] + n) % 2 else \
                    ', vp::tfx<boost::mpl::int_<%d>, boost::mpl::_1>' % x['act']
            g += '::rule<%s%s >' % (emit.tpl('mp::string', map(str, x['text'])), act)
        else:
            uses.append('vp::use<G, %s, %s >();' % (emit.text(x['in']), emit.position(x['at'], n)))
            continue
        g += '::type'
    return g, uses


def line(case, conf, use=True):
    g, uses = source(case, conf)
    if not use:
        return '{ typedef %s G; typedef G::type H; vp::built<H::rules>(%d); }' % (g, case['id'])
    return '{ typedef %s G; vp::section(%d); %s }' % (g, case['id'], ' '.join(uses))


def record(scratch, plan):
    b = Builder(scratch, 'vp_gram.hpp')
    bad = [p for p in plan if p[0]['kind'] != 'ok']
    res, notes = run_lines(b, [(conf, c['id'], line(c, conf)) for c, conf in plan if c['kind'] == 'ok'], batch=24)
    # does the grammar as such compile?
    types = {}
    r, n = run_lines(b, [(conf, c['id'], line(c, conf, False)) for c, conf in bad if c['kind'] == 'badrule'], batch=1)
    types.update(r)
    r, n = run_lines(b, [(conf, c['id'], line(c, conf, False)) for c, conf in bad if c['kind'] == 'baduse'], batch=30)
    types.update(r)
    r, n = run_lines(b, [(conf, c['id'], line(c, conf)) for c, conf in bad if c['kind'] == 'baduse'], batch=1)
    res.update(r)
    recs = []
    for c, conf in plan:
        k = (conf.name, c['id'])
        ev = [dict(x) for x in c['ev']]
        for x in ev:
            if x['op'] == 'rule':
                x['got'] = 'taken'
        if c['kind'] == 'badrule':
            if k not in types:
                continue
            if types[k] is None:
                ev[-1]['got'] = 'refused'
        elif c['kind'] == 'baduse' and types.get(k) is None:
            ev = [x for x in ev if x['op'] != 'use']
            ev[-1]['got'] = 'refused'
        else:
            if k not in res:
                continue
            out = parse_output(res[k] or '').get(c['id'], [])
            uses = [x for x in ev if x['op'] == 'use']
            for n, x in enumerate(uses):
                x.update(out[n] if n < len(out) else
                         {'st': 'refused', 'res': [], 'rem': [], 'pos': [], 'msg': []})
        recs.append((c, conf, ev, notes.get(k, '')))
    return recs


def validate(chk, scratch, recs):
    refused = []
    items = recs
    while items:
        path = os.path.join(scratch, 'trace.json')
        with open(path, 'w') as f:
            for n, (c, conf, ev, note) in enumerate(items):
                f.write(json.dumps({'id': n, 'start': c['start'], 'ev': ev}) + '\n')
        verdict, out = chk.tlc('GrammarTrace', 'GrammarTrace.cfg', {'VP_TRACE': path}, scratch)
        if verdict == 'ok':
            break
        bad = refused_ids(out, len(items))
        refused += [items[b] for b in bad]
        items = [x for n, x in enumerate(items) if n not in bad]
        if len(refused) >= 6:
            break
    chk.cov['traces_validated_against_impl'] += len(recs)
    return refused


def too_long(c):
    return any(len(x.get('text', ())) > 32 or len(x.get('in', ())) > 32 for x in c['ev'])


def check_grammars(chk, scratch):
    q = TIER != 'thorough'
    path = os.path.join(scratch, 'gram.json')
    chk.tlc('GrammarGen', 'GrammarGen.cfg', {'VP_OUT': path, 'VP_TIER': TIER, 'VP_PROP': 'gram'}, scratch, workers=1, timeout=800)
    cases = []
    for n, l in enumerate(open(path)):
        c = json.loads(l)
        c['id'] = n
        cases.append(c)
    chk.cov['samples'] += len(cases)
    log('%d grammars generated' % len(cases))
    plan = [(c, conf) for i, (conf, every) in enumerate(CONFS) for c in cases
            if (c['id'] + i) % (every if q else 1 + every // 6) == 0 and not (conf.is98() and too_long(c))]
    recs = record(scratch, plan)
    log('%d replayed' % len(recs))
    bad = validate(chk, scratch, recs)
    if bad:
        for c, conf, ev, note in validate(chk, scratch, record(scratch, [(c, k) for c, k, _, _ in bad[:12]])):
            rules = [''.join(chr(x & 255) for x in e['text']) for e in ev if e['op'] == 'rule']
            chk.violation('%s: %s %s %s' % (conf.name, rules, json.dumps([e for e in ev if e['op'] == 'use'])[:400], note[:300]),
                          {'case': c, 'config': conf.name, 'ev': ev, 'source': line(c, conf)})
