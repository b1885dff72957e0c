"""build_parser, debug_parsing_error, message texts (spec/Report.tla)."""
import concurrent.futures as cf
import json
import os
import re

import emit
from core import Builder, Config, CORES, ModelError, log, run, run_lines, TIER, HARNESS
from parsers import refused_ids

CONFS = [(Config('g17', 'c++17'), 1), (Config('g98', 'c++98', variant=3), 2), (Config('g11', 'c++11', variant=1), 3),
         (Config('g14', 'c++14', variant=2), 5), (Config('c17', 'c++17', cxx='clang++', variant=4), 8)]


def types(case, conf):
    e = emit.Emitter(case['id'] * 31 + conf.variant)
    return e.term(case['p']), emit.text(case['in'])


def source(case, conf):
    p, s = types(case, conf)
    k = (case['id'] + conf.variant) % 3
    if case['op'] == 'debug':
        # build_parser is seen through
        d = 'mp::debug_parsing_error<%s, %s >' % (p if k else 'mp::build_parser<%s >' % p, s)
        return 'vp::section(%d); vp::debug<%s >();' % (case['id'], d)
    t = ('mp::build_parser<%s >::apply<%s >::type', 'mp::build_parser<%s >::type::apply<%s >::type',
         'boost::mpl::apply_wrap1<mp::build_parser<%s >, %s >::type')[k] % (p, s)
    return '{ typedef %s T; vp::section(%d); vp::built<T>(); }' % (t, case['id'])


# -- what the compiler says about a rejected text ---------------------------
ESC = {'n': 10, 'r': 13, 't': 9, '0': 0, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '\\': 92, "'": 39, '"': 34}
NAMES = {'digit_expected': [1], 'end_of_input_expected': [2], 'expected_to_fail': [3], 'letter_expected': [5],
         'none_of_the_expected_cases_found': [7], 'unexpected_character': [8], 'unexpected_end_of_input': [9],
         'whitespace_expected': [11]}


class Unreadable(Exception):
    pass


class Reader:
    """name [< arg, ... >] as compilers print it"""

    def __init__(self, s):
        self.s, self.i = s, 0

    def ws(self):
        while self.s[self.i:self.i + 1] == ' ':
            self.i += 1

    def next(self, c):
        self.ws()
        if self.s[self.i:self.i + 1] != c:
            raise Unreadable(self.s[self.i:self.i + 40])
        self.i += 1

    def item(self):
        self.ws()
        s = self.s
        m = re.compile(r'\(char\)\s*(-?\d+)|(-?\d+)').match(s, self.i)
        if m:
            self.i = m.end()
            return int(m.group(1) or m.group(2))
        if s[self.i] == "'":
            m = re.compile(r"'(\\x[0-9a-fA-F]+|\\[0-7]+|\\.|[^\\])'", re.S).match(s, self.i)
            if not m:
                raise Unreadable(s[self.i:self.i + 40])
            self.i = m.end()
            g = m.group(1)
            if g[0] != '\\':
                v = ord(g)
            elif g[1] == 'x':
                v = int(g[2:], 16)
            elif g[1:].isdigit():
                v = int(g[1:], 8)
            else:
                v = ESC[g[1]]
            v &= 255
            return v - 256 if v > 127 else v
        m = re.compile(r'[A-Za-z_:0-9]+').match(s, self.i)
        if not m:
            raise Unreadable(s[self.i:self.i + 40])
        self.i = m.end()
        name = m.group(0).split('::')[-1]
        args = []
        self.ws()
        if s[self.i:self.i + 1] == '<':
            self.next('<')
            while True:
                args.append(self.item())
                self.ws()
                if s[self.i] == ',':
                    self.i += 1
                    continue
                self.next('>')
                break
        return (name, args)


def message(t):
    if not isinstance(t, tuple):
        raise Unreadable(str(t))
    n, a = t
    if n in NAMES:
        return NAMES[n]
    if n == 'index_out_of_range':
        return [4] + a
    if n == 'literal_expected':
        return [6] + a
    if n == 'unpaired':
        return [10] + a[:2] + message(a[2])
    if n == 'uerr':
        return [100] + a
    if n == 'wrap':
        return [101, a[0]] + message(a[1])
    raise Unreadable(n)


def diagnostic(err):
    """-> set of (line, col, message) named by the diagnostic"""
    got = set()
    for m in re.finditer(r'PARSING_FAILED_*x(?=<)', err):
        r = Reader(err[m.end() - 1:m.end() + 4000])
        r.s = 'x' + r.s
        try:
            line, col, msg = r.item()[1]
            if isinstance(line, int) and isinstance(col, int):
                got.add((line, col, tuple(message(msg))))
        except (Unreadable, ValueError, IndexError, KeyError):
            pass
    return got


def compile_alone(b, conf, case):
    src = os.path.join(b.scratch, 'r_%s_%d.cpp' % (conf.name, case['id']))
    with open(src, 'w') as f:
        f.write('#include "%s"\nnamespace mp = boost::metaparse;\nint main() {\n%s\n}\n' % (b.header, source(case, conf)))
    d = b.pch[(conf.pch_key(), b.header)]
    cmd = conf.cmd()
    if d and conf.cxx == 'g++':
        cmd = [cmd[0], '-I', d] + cmd[1:] + ['-include', b.header]
    elif d:
        cmd += ['-include-pch', os.path.join(d, b.header + '.pch')]
    for _ in range(2):
        rc, out, err = run(cmd + ['-fsyntax-only', src], timeout=120)
        if rc == 0 or diagnostic(err):
            break
    os.unlink(src)
    return rc, err


def record(scratch, plan):
    b = Builder(scratch, 'vp_rep.hpp')
    batch = [(c, conf) for c, conf in plan if c['op'] == 'debug' or not c['rej']]
    alone = [(c, conf) for c, conf in plan if not (c['op'] == 'debug' or not c['rej'])]
    res, notes = run_lines(b, [(conf, c['id'], source(c, conf)) for c, conf in batch], batch=120)
    b.prepare([conf for _, conf in plan])
    recs = []
    empty = {'res': [], 'msg': [], 'at': [], 'out': [], 'exit': -1}
    for c, conf in batch:
        k = (conf.name, c['id'])
        if k not in res:
            continue
        ls = (res[k] or '').splitlines()[1:]
        r = dict(empty, got='refused')
        if ls and ls[0].startswith('B'):
            r = dict(empty, got='built', res=[int(x) for x in ls[0][1:].split()])
        elif ls and ls[0].startswith('D'):
            o, x = ls[0][1:].split('|')
            r = dict(empty, got='report', out=[int(y) for y in o.split()], exit=int(x))
        recs.append((c, conf, r, notes.get(k, '')))

    def one(cc):
        c, conf = cc
        if (conf.pch_key(), b.header) in b.broken:
            return (c, conf, dict(empty, got='nothing'), b.broken[(conf.pch_key(), b.header)])
        rc, err = compile_alone(b, conf, c)
        if rc == 0:
            return (c, conf, dict(empty, got='built'), 'compiles')
        d = diagnostic(err)
        if len(d) != 1:
            return (c, conf, dict(empty, got='refused'), 'diagnostic names %s: %s' % (sorted(d), err[:300]))
        (line, col, msg), = d
        return (c, conf, dict(empty, got='refused', at=[line, col], msg=list(msg)), '')
    with cf.ThreadPoolExecutor(CORES) as ex:
        recs += list(ex.map(one, alone))
    return recs


def validate(chk, scratch, recs):
    refused = []
    items = recs
    while items:
        path = os.path.join(scratch, 'trace.json')
        with open(path, 'w') as f:
            for n, (c, conf, r, note) in enumerate(items):
                f.write(json.dumps(dict(r, id=n, op=c['op'], p=c['p'], **{'in': c['in']})) + '\n')
        verdict, out = chk.tlc('ReportTrace', 'ReportTrace.cfg', {'VP_TRACE': path}, scratch)
        if verdict == 'ok':
            break
        bad = refused_ids(out, len(items))
        refused += [items[b] for b in bad]
        items = [x for n, x in enumerate(items) if n not in bad]
        if len(refused) >= 6:
            break
    chk.cov['traces_validated_against_impl'] += len(recs)
    return refused


def check_reports(op):
    def f(chk, scratch):
        q = TIER != 'thorough'
        verdict, out = chk.tlc('Report', 'Report.cfg', {}, scratch)
        if verdict != 'ok':
            raise ModelError('Report refutes itself: ' + out[-2000:])
        path = os.path.join(scratch, 'rep.json')
        chk.tlc('ReportGen', 'ReportGen.cfg', {'VP_OUT': path, 'VP_TIER': TIER, 'VP_PROP': 'report'}, scratch, workers=1, timeout=800)
        cases = []
        for n, l in enumerate(open(path)):
            c = json.loads(l)
            c['id'] = n
            if c['op'] == op:
                cases.append(c)
        chk.cov['samples'] += len(cases)
        log('%d cases generated' % len(cases))
        plan = []
        for i, (conf, every) in enumerate(CONFS):
            for n, c in enumerate(cases):
                s = {'in': c['in'], 'ps': [c['p']]}
                # a rejected build is a compiler run of its own
                step = every * (2 if q and c['op'] == 'build' and c['rej'] else 1)
                if (n + i) % (step if q else 1 + every // 3) == 0 and emit.fits_any(s) and not (conf.is98() and not emit.fits98(s)):
                    plan.append((c, conf))
        recs = record(scratch, plan)
        log('%d replayed, %d of them refused by the compiler' % (len(recs), sum(r[2]['got'] == 'refused' for r in recs)))
        bad = validate(chk, scratch, recs)
        if bad:
            for c, conf, r, note in validate(chk, scratch, record(scratch, [(c, k) for c, k, _, _ in bad[:12]])):
                shown = dict(r, out=''.join(chr(x & 255) for x in r['out']))
                chk.violation('%s: %s of %s on %s: %s %s' % (conf.name, c['op'], json.dumps(c['p']), c['in'], json.dumps(shown), note[:300]),
                              {'case': c, 'config': conf.name, 'got': r, 'source': source(c, conf)})
    return f
