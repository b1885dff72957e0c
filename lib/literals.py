"""String literals (spec/Literal.tla) replayed and validated."""
import json
import os

from core import Builder, Config, ModelError, log, run_lines, TIER
from parsers import refused_ids

FORMS = ('vp::show<BOOST_METAPARSE_STRING(%s)>();',
         'vp::show<BOOST_METAPARSE_V1_STRING(%s)>();',
         'vp::show_value(BOOST_METAPARSE_STRING_VALUE(%s));',
         'vp::show<BOOST_METAPARSE_STRING(%s)::type>();',
         '{ typedef BOOST_METAPARSE_STRING(%s) s_; vp::show<s_>(); }')


def quote(w, form):
    """A literal of the characters w: octal escapes, or pieces."""
    cs = []
    for i, c in enumerate(w):
        ok = 32 <= c < 127 and chr(c) not in '"\\?%'
        cs.append(chr(c) if ok and (form + i) % 5 else '\\%03o' % (c & 255))
    if form % 3 == 2 and len(cs) > 1:        # adjacent literals
        h = len(cs) // 2
        return '"%s" "%s"' % (''.join(cs[:h]), ''.join(cs[h:]))
    return '"%s"' % ''.join(cs)


def source(case):
    out = ['vp::section(%d);' % case['id']]
    for n, e in enumerate(case['ev']):
        if e['op'] == 'limit':
            out += ['#undef BOOST_METAPARSE_LIMIT_STRING_SIZE',
                    '#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d' % e['n']]
        else:
            k = case['id'] + n
            out.append(FORMS[k % len(FORMS)] % quote(e['w'], k))
    return '\n'.join(out)


def too_long(case):
    lim = 32
    for e in case['ev']:
        if e['op'] == 'limit':
            lim = e['n']
        elif len(e['w']) > lim:
            return True
    return False


def observed(case, text, isolated):
    """events with what the library did"""
    if text is None:
        ev = [dict(e) for e in case['ev']]
        # everything but the last literal is known to be fine on its own
        for e in ev:
            if e['op'] == 'make':
                e['got'], e['str'] = 'refused', []
        if isolated:
            for e in ev[:-1]:
                if e['op'] == 'make':
                    e['got'], e['str'] = 'string', e['w']
        return ev
    got = [[int(x) for x in l[1:].split()] for l in text.splitlines()[1:]]
    ev = []
    n = 0
    for e in case['ev']:
        e = dict(e)
        if e['op'] == 'make':
            e['got'] = 'string' if n < len(got) else 'refused'
            e['str'] = got[n] if n < len(got) else []
            n += 1
        ev.append(e)
    return ev


def record(scratch, plan):
    b = Builder(scratch, 'vp_lit.hpp')
    res, notes = run_lines(b, [(conf, c['id'], source(c)) for c, conf in plan if not too_long(c)], batch=30)
    one = [(conf, c['id'], source(c)) for c, conf in plan if too_long(c)]
    if one:
        r2, n2 = run_lines(b, one, batch=1)
        res.update(r2)
        notes.update(n2)
    # what precedes an over-long literal must compile by itself
    pre = [(dict(c, ev=c['ev'][:-1]), conf) for c, conf in plan if too_long(c)]
    r3, _ = run_lines(b, [(conf, c['id'], source(c)) for c, conf in pre], batch=30) if pre else ({}, {})
    recs = []
    for c, conf in plan:
        k = (conf.name, c['id'])
        if k not in res:
            continue
        t = res[k]
        iso = too_long(c) and r3.get(k) is not None
        recs.append((c, conf, observed(c, t, iso), notes.get(k, '')))
    return recs


def validate(chk, scratch, recs):
    refused = []
    items = list(enumerate(recs))
    while items:
        path = os.path.join(scratch, 'trace.json')
        with open(path, 'w') as f:
            for n, (_, (c, conf, ev, note)) in enumerate(items):
                f.write(json.dumps({'id': n, 'limit': 32, 'ev': ev}) + '\n')
        verdict, out = chk.tlc('LiteralTrace', 'LiteralTrace.cfg', {'VP_TRACE': path}, scratch)
        if verdict == 'ok':
            break
        bad = refused_ids(out, len(items))
        refused += [items[b][1] for b in bad]
        items = [x for n, x in enumerate(items) if n not in bad]
        if len(refused) >= 6:
            break
    chk.cov['traces_validated_against_impl'] += len(recs)
    return refused


def check_literals(chk, scratch):
    q = TIER != 'thorough'
    verdict, out = chk.tlc('Literal', 'Literal.cfg', {}, scratch)
    if verdict != 'ok':
        raise ModelError('Literal refutes itself: ' + out[-2000:])
    path = os.path.join(scratch, 'lit.json')
    chk.tlc('LiteralGen', 'LiteralGen.cfg', {'VP_OUT': path, 'VP_TIER': TIER}, scratch, workers=1)
    cases = []
    for n, l in enumerate(open(path)):
        c = json.loads(l)
        c['id'] = n
        cases.append(c)
    chk.cov['samples'] += len(cases)
    log('%d translation units generated' % len(cases))
    confs = [(Config('g17', 'c++17'), 1), (Config('g11', 'c++11'), 8 if q else 1),
             (Config('g14', 'c++14'), 16 if q else 2),
             (Config('c17', 'c++17', cxx='clang++'), 12 if q else 1),
             (Config('c11', 'c++11', cxx='clang++'), 25 if q else 3),
             (Config('g23', 'c++23'), 16 if q else 2), (Config('c23', 'c++23', cxx='clang++'), 40 if q else 4)]
    plan = [(c, conf) for i, (conf, every) in enumerate(confs) for c in cases
            if (c['id'] + i) % every == 0]
    recs = record(scratch, plan)
    log('%d replayed' % len(recs))
    bad = validate(chk, scratch, recs)
    if bad:
        for c, conf, ev, note in validate(chk, scratch, record(scratch, [(c, k) for c, k, _, _ in bad[:12]])):
            chk.violation('%s: %s %s' % (conf.name, json.dumps([dict(e, w=(len(e.get('w', ())), e.get('w', ())[:8])) for e in ev])[:500], note[:300]),
                          {'case': c, 'config': conf.name, 'ev': ev, 'source': source(c)})
