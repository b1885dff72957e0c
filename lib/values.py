"""Positions, parsing results and utilities as values (spec/Values.tla)."""
import json
import os

import emit
from core import Builder, Config, ModelError, log, run_lines, TIER
from parsers import refused_ids

CONFS = [(Config('g17', 'c++17'), 1), (Config('g98', 'c++98', variant=1), 1), (Config('g11', 'c++11', variant=2), 2),
         (Config('c17', 'c++17', cxx='clang++', variant=3), 3)]
TYPES = {'char': (-128, 127), 'int': (-2**31, 2**31 - 1), 'long': (-2**63, 2**63 - 1)}
BOX = {'char': 'boost::mpl::char_<%d>', 'int': 'boost::mpl::int_<%d>', 'long': 'boost::mpl::long_<%d>'}


class Pick:
    def __init__(self, seed):
        self.v = (seed * 2654435761 + 17) & 0xffffffff

    def __call__(self, n):
        self.v = (self.v * 1103515245 + 12345) & 0x7fffffff
        return (self.v >> 12) % n


def box(v, pick, boxes=True):
    # MPL's own wrappers compute v + 1 and v - 1, which must not overflow
    ts = [t for t in TYPES if (TYPES[t][0] < v < TYPES[t][1]) or (t == 'char' and TYPES[t][0] <= v <= TYPES[t][1])]
    t = ts[pick(len(ts))]
    if boxes or pick(3) or (t == 'char' and v in TYPES[t]):
        return BOX[t] % v
    return 'boost::mpl::integral_c<%s, %d>' % (t, v)


def call(e, pick):
    f, x = e['f'], e['x']
    u = 'mp::util::' + f
    if f == 'in_wide_range':
        x = [h * 2**31 + l for h, l in x]
        f = 'in_range'
    if f in ('in_range',):
        k = pick(8)
        ts = [t for t in TYPES if all(TYPES[t][0] <= v <= TYPES[t][1] for v in x[:2])]
        if k == 7:
            t = ts[pick(len(ts))]
            return 'vp::see_bool<mp::util::in_range_c<%s, %d, %d>::apply<%s >::type>();' % (t, x[0], x[1], box(x[2], pick))
        lo, hi, i = [box(v, pick, False) for v in x]
        t = ('mp::util::in_range<%s, %s, %s >' % (lo, hi, i), 'mp::util::in_range<%s, %s >::apply<%s >' % (lo, hi, i),
             'mp::util::in_range<%s >::apply<%s, %s >' % (lo, hi, i), 'mp::util::in_range<>::apply<%s, %s, %s >' % (lo, hi, i),
             'boost::mpl::apply_wrap1<mp::util::in_range<%s, %s >, %s >' % (lo, hi, i),
             'mp::util::in_range<%s >::apply<%s >::type::apply<%s >' % (lo, hi, i),
             'mp::util::in_range<>::apply<%s >::type::apply<%s >::type::apply<%s >' % (lo, hi, i))[k]
        return 'vp::see_bool<%s::type>();' % t
    b = emit.ch(x[0]) if f != 'int_to_digit' else 'boost::mpl::int_<%d>' % x[0]
    forms = ['%s<%s >' % (u, b), '%s<>::apply<%s >' % (u, b), '%s<vp::lazy<%s > >' % (u, b),
             'boost::mpl::apply_wrap1<%s<>, %s >' % (u, b), '%s<>::type::apply<vp::lazy<%s > >' % (u, b)]
    if f in ('is_whitespace', 'digit_to_int', 'int_to_digit'):
        forms += ['%s_c<%d>' % (u, x[0])] * 3
    t = forms[pick(len(forms))]
    return 'vp::%s<%s::type>();' % ('see_bool' if f.startswith('is_') else 'see_val', t)


def source(case, conf):
    pick = Pick(case['id'] * 8 + conf.variant)
    out = ['vp::section(%d);' % case['id']]
    n = 0
    kind = {}

    def use(i):
        """a reference to register i, as a value or as a nullary metafunction"""
        return ('r%d' % i, 'r%d::type' % i, 'vp::lazy<r%d::type >' % i)[pick(3)]

    def define(t, k):
        nonlocal n
        n += 1
        kind[n] = k
        out.append('typedef %s r%d; vp::%s<%s >();' % (t + ('::type' if pick(2) else ''), n, 'see_pos' if k == 'p' else 'see_out', use(n)))
    for e in case['ev']:
        op = e['op']
        if op == 'pos':
            if [e['l'], e['c'], e['ch']] == [1, 1, 0] and pick(2):
                define('mp::start', 'p')
            else:
                define('mp::source_position<boost::mpl::int_<%d>, boost::mpl::int_<%d>, boost::mpl::char_<%d> >' % (e['l'], e['c'], e['ch']), 'p')
        elif op in ('nextchar', 'nextline'):
            ch = emit.ch(e['ch'])
            if pick(2):
                ch = 'vp::lazy<%s >' % ch
            define('mp::%s<%s, %s >' % ('next_char' if op == 'nextchar' else 'next_line', use(e['i']), ch), 'p')
        elif op == 'accept':
            define('mp::accept<%s, %s, %s >' % (emit.result(e['r']), emit.text(e['w'], ('string', 'list', 'vector')[pick(3)]), use(e['i'])), 'o')
        elif op == 'reject':
            m = e['m']
            if m[0] == 4:
                t = 'mp::error::index_out_of_range<%d, %d, %d>' % tuple(m[1:])
            elif m[0] == 10:
                t = 'mp::error::unpaired<%d, %d, %s >' % (m[1], m[2], emit.message(m[3:]))
                if pick(2):
                    t = 'mp::error::unpaired<%d, %d>::apply<%s >::type' % (m[1], m[2], emit.message(m[3:]))
            else:
                t = emit.message(m)
            define('mp::reject<%s, %s >' % (t, use(e['i'])), 'o')
        elif op == 'getpos':
            define('mp::get_position<%s >' % use(e['i']), 'p')
        elif op == 'unless':
            define('mp::unless_error<%s, %s >' % (use(e['i']), use(e['j'])), 'o')
        elif op == 'cmp':
            out.append('vp::see_cmp<r%d::type, r%d::type>();' % (e['i'], e['j']))
        else:
            out.append(call(e, pick))
    return '{ %s }' % ' '.join(out)


def record(scratch, plan):
    b = Builder(scratch, 'vp_val.hpp')
    res, notes = run_lines(b, [(conf, c['id'], source(c, conf)) for c, conf in plan], batch=150)
    recs = []
    for c, conf in plan:
        k = (conf.name, c['id'])
        if k not in res:
            continue
        ls = [[int(x) for x in l[1:].split()] for l in (res[k] or '').splitlines()[1:]]
        ev = [dict(e, got=ls[n] if n < len(ls) else [-999]) for n, e in enumerate(c['ev'])]
        recs.append((c, conf, ev, notes.get(k, '')))
    return recs


def validate(chk, scratch, recs):
    refused = []
    items = recs
    while items:
        path = os.path.join(scratch, 'trace.json')
        with open(path, 'w') as f:
            for n, (c, conf, ev, note) in enumerate(items):
                f.write(json.dumps({'id': n, 'ev': ev}) + '\n')
        verdict, out = chk.tlc('ValuesTrace', 'ValuesTrace.cfg', {'VP_TRACE': path}, scratch)
        if verdict == 'ok':
            break
        bad = refused_ids(out, len(items))
        refused += [items[b] for b in bad]
        items = [x for n, x in enumerate(items) if n not in bad]
        if len(refused) >= 6:
            break
    chk.cov['traces_validated_against_impl'] += len(recs)
    return refused


def check_values(what):
    def f(chk, scratch):
        q = TIER != 'thorough'
        verdict, out = chk.tlc('Values', 'Values.cfg', {}, scratch)
        if verdict != 'ok':
            raise ModelError('Values refutes itself: ' + out[-2000:])
        path = os.path.join(scratch, 'val.json')
        chk.tlc('ValuesGen', 'ValuesGen.cfg', {'VP_OUT': path, 'VP_TIER': TIER, 'VP_PROP': what}, scratch, workers=1, timeout=800)
        cases = []
        for n, l in enumerate(open(path)):
            c = json.loads(l)
            c['id'] = n
            cases.append(c)
        chk.cov['samples'] += len(cases)
        log('%d computations generated' % len(cases))
        plan = [(c, conf) for i, (conf, every) in enumerate(CONFS) for c in cases if (c['id'] + i) % (every if q else 1) == 0]
        recs = record(scratch, plan)
        log('%d replayed' % len(recs))
        bad = validate(chk, scratch, recs)
        if bad:
            for c, conf, ev, note in validate(chk, scratch, record(scratch, [(c, k) for c, k, _, _ in bad[:12]])):
                chk.violation('%s: %s %s' % (conf.name, json.dumps(ev)[:600], note[:300]),
                              {'case': c, 'config': conf.name, 'ev': ev, 'source': source(c, conf)})
    return f
