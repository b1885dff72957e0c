"""Specification terms (JSON of spec/Metaparse.tla) -> C++ template ids."""
import hashlib

M = 'mp::'
PREDS = {'digit': 'is_digit', 'letter': 'is_letter', 'lcase': 'is_lcase_letter',
         'ucase': 'is_ucase_letter', 'ws': 'is_whitespace'}
PREDS = {k: 'mp::util::%s<>' % v for k, v in PREDS.items()}
PREDS.update(any='vp::pany', none='vp::pnone', bomb='vp::pbomb')
LEAF = {'one_char': 'one_char', 'digit': 'digit', 'digit_val': 'digit_val',
        'letter': 'letter', 'space': 'space', 'alphanum': 'alphanum',
        'int': 'int_', 'spaces': 'spaces'}
FOLD = {'foldl': 'foldl', 'foldl1': 'foldl1', 'foldlri': 'foldl_reject_incomplete',
        'foldlri1': 'foldl_reject_incomplete1', 'foldr': 'foldr', 'foldr1': 'foldr1',
        'foldrri': 'foldr_reject_incomplete', 'foldrri1': 'foldr_reject_incomplete1',
        'foldlsp': 'foldl_start_with_parser',
        'foldlrisp': 'foldl_reject_incomplete_start_with_parser',
        'foldrsp': 'foldr_start_with_parser'}
REP = {'rep': 'repeated', 'rep1': 'repeated1', 'repri': 'repeated_reject_incomplete',
       'repri1': 'repeated_reject_incomplete1'}
NARY = {'seq': 'sequence', 'first': 'first_of', 'last': 'last_of', 'oneof': 'one_of',
        'rep1of': 'repeated_one_of', 'rep1of1': 'repeated_one_of1'}


def tpl(name, args):
    return name + '<' + ', '.join(args) + ' >'


def ch(c):
    return 'boost::mpl::char_<%d>' % c


def result(r, raw=False):
    if r[0] == 1:
        return ch(r[1])
    if r[0] == 2:
        return 'boost::mpl::int_<%d>' % r[1]
    if r[0] == 5:
        return 'vp::%ssym<%d>' % ('r' if raw else '', r[1])
    if r[0] == 8:
        return 'void'
    if r[0] == 9:
        return 'vp::odd<%d>::type' % r[1]
    raise ValueError(r)


def message(m):
    if m[0] == 100:
        return 'vp::uerr<%d>' % m[1]
    names = {1: 'digit_expected', 2: 'end_of_input_expected', 3: 'expected_to_fail',
             5: 'letter_expected', 7: 'none_of_the_expected_cases_found',
             8: 'unexpected_character', 9: 'unexpected_end_of_input',
             11: 'whitespace_expected'}
    if m[0] == 6:
        return 'mp::v1::error::literal_expected<%d>' % m[1]
    return 'mp::v1::error::' + names[m[0]]


class Emitter:
    """variant: integer selecting between equivalent spellings of the API."""

    def __init__(self, variant, raw=False, hand=False):
        self.v = variant
        self.hand = hand                # hand-written parsers
        self.r = 'r' if raw else ''     # results that are plain types without ::type

    def alt(self):
        self.v = (self.v * 1103515245 + 12345) & 0x7fffffff
        return (self.v >> 16) & 1

    def ich(self, c):
        return 'boost::mpl::integral_c<char, %d>' % c if self.alt() and self.alt() else ch(c)

    def inum(self, n):
        return 'boost::mpl::%s<%d>' % (('int_', 'long_')[self.alt() & self.alt()], n)

    def term(self, t):
        """now and then a parser of the user's own around it"""
        x = self.plain(t)
        if self.hand:
            u = (self.alt() << 2) | (self.alt() << 1) | self.alt()
            if u < 2:
                return 'vp::%s<%s >' % (('hand', 'heir')[u], x)
        return x

    def plain(self, t):
        k = t['k']
        T = self.term
        if k in LEAF:
            return M + LEAF[k]
        if k == 'lit':
            return 'mp::lit_c<%d>' % t['c'] if self.alt() else tpl('mp::lit', [self.ich(t['c'])])
        if k == 'range':
            if self.alt():
                return 'mp::range_c<%d, %d>' % (t['a'], t['b'])
            return tpl('mp::range', [self.ich(t['a']), self.ich(t['b'])])
        if k == 'ocx':
            if self.alt():
                return tpl('mp::one_char_except_c', [str(c) for c in t['cs']])
            return tpl('mp::one_char_except', [self.ich(c) for c in t['cs']])
        if k == 'oneofc':
            return tpl('mp::one_of_c', [str(c) for c in t['cs']])
        if k == 'ret':
            return tpl('mp::return_', [result(t['r'], self.r)])
        if k == 'empty':
            return tpl('mp::empty', [result(t['r'], self.r)])
        if k == 'fail':
            return tpl('mp::fail', [message(t['m'])])
        if k == 'keyword':
            n = len(t['s'])
            kind = ('string', 'list', 'vector')[0 if n > 20 else (self.alt() + self.alt() * self.alt())]
            return tpl('mp::keyword', [text(t['s'], kind),
                                       result(t['r'], self.r)])
        if k == 'always':
            return tpl('mp::always', [T(t['p']), result(t['r'], self.r)])
        if k == 'always_c':
            return tpl('mp::always_c', [str(t['c']), result(t['r'], self.r)])
        if k == 'chmsg':
            return tpl('mp::change_error_message', [T(t['p']), message(t['m'])])
        if k == 'accept_when':
            return tpl('mp::accept_when',
                       [T(t['p']), PREDS[t['pred']], message(t['m'])])
        if k == 'transform':
            return tpl('mp::transform', [T(t['p']), 'vp::%stf<%d>' % (self.r, t['f'])])
        if k == 'terr':
            return tpl('mp::transform_error', [T(t['p']), 'vp::te<%d>' % t['f']])
        if k == 'terrmsg':
            return tpl('mp::transform_error_message', [T(t['p']), 'vp::tm<%d>' % t['f']])
        if k in NARY:
            return tpl(M + NARY[k], [T(x) for x in t['ps']])
        if k == 'seqapply':
            n = len(t['ps'])
            return tpl('mp::sequence_apply%d' % n, ['vp::%sinst%d' % (self.r, n)] + [T(x) for x in t['ps']])
        if k == 'nth':
            a = self.alt()
            ps = [T(x) for x in t['ps']]
            if a:
                return tpl('mp::nth_of_c', [str(t['n'])] + ps)
            return tpl('mp::nth_of', [self.inum(t['n'])] + ps)
        if k == 'middle':
            return tpl('mp::middle_of', [T(t['p']), T(t['q']), T(t['z'])])
        if k == 'iterate':
            if self.alt():
                return tpl('mp::iterate_c', [T(t['p']), str(t['n'])])
            return tpl('mp::iterate', [T(t['p']), self.inum(t['n'])])
        if k == 'optional':
            if t['r'] == [8]:
                return tpl('mp::optional', [T(t['p'])])
            return tpl('mp::optional', [T(t['p']), result(t['r'], self.r)])
        if k == 'if':
            return tpl('mp::if_', [T(t['p']), result(t['t'], self.r), result(t['e'], self.r)])
        if k == 'except':
            return tpl('mp::except', [T(t['p']), result(t['r'], self.r), message(t['m'])])
        if k == 'look':
            return tpl('mp::look_ahead', [T(t['p'])])
        if k == 'fafce':
            # the accepted result is unspecified by the documentation
            return 'mp::always<mp::fail_at_first_char_expected<%s >, vp::sym<77> >' % T(t['p'])
        if k == 'entire':
            if t['m'] == [2] and self.alt():
                return tpl('mp::entire_input', [T(t['p'])])
            return tpl('mp::entire_input', [T(t['p']), message(t['m'])])
        if k == 'token':
            return tpl('mp::token', [T(t['p'])])
        if k in ('foldlsp', 'foldlrisp', 'foldrsp'):
            return tpl(M + FOLD[k], [T(t['p']), T(t['q']), 'vp::bmk' if 'b' in t else 'vp::mk'])
        if k in FOLD:
            return tpl(M + FOLD[k], [T(t['p']), result(t['r']), 'vp::bmk' if 'b' in t else 'vp::%smk' % self.r])
        if k in REP:
            return tpl(M + REP[k], [T(t['p'])])
        if k == 'only':
            return 'vp::only<%s, %dul>' % (T(t['p']), sum(1 << n for n in t['at']))
        if k == 'bomb':
            return 'vp::bomb'
        if k == 'nt':
            return 'vp::nt%d' % t['n']
        raise ValueError(k)


def position(p, variant=0):
    if p == [1, 1, 0] and not variant & 1:
        return 'mp::start'
    return ('mp::source_position<boost::mpl::int_<%d>, boost::mpl::int_<%d>, '
            'boost::mpl::char_<%d> >' % tuple(p))


MIXED = ('list', 'vector', 'deque', 'mplstring', 'popped', 'pushed', 'macro', 'string')
MIXED98 = ('list', 'vector', 'deque', 'mplstring', 'popped', 'pushed', 'front', 'string')


def text(s, container='string', h=0):
    a = [str(c) for c in s]
    if container in ('mixed', 'mixed98'):
        container = (MIXED if container == 'mixed' else MIXED98)[h % 8]
    if container == 'mplstring' and not (len(s) < 7 and all(0 < c for c in s)):
        container = 'deque'
    if container == 'deque' and len(s) > 20:
        container = 'popped'
    if container == 'popped':
        return tpl('boost::mpl::pop_front', [tpl('mp::string', ['120'] + a)]) + '::type' if len(a) < 31 else text(s)
    if container == 'pushed' and a:
        return tpl('boost::mpl::push_back', [tpl('mp::string', a[:-1]), ch(s[-1])]) + '::type'
    if container == 'front' and a:
        return tpl('boost::mpl::push_front', [tpl('mp::string', a[1:]), ch(s[0])]) + '::type'
    if container == 'macro' and len(s) > 32:
        container = 'string'
    if container == 'macro':
        return 'BOOST_METAPARSE_STRING("%s")' % ''.join('\\%03o' % (c & 255) for c in s)
    if container in ('pushed', 'front'):
        return text(s)
    if container == 'string' or len(s) > 20:
        return tpl('mp::string', a)
    if container == 'list':
        return tpl('boost::mpl::list_c', ['char'] + a)
    if container == 'vector':
        return tpl('boost::mpl::vector_c', ['char'] + a)
    if container == 'deque':
        return tpl('boost::mpl::deque', [ch(c) for c in s])
    if container == 'mplstring':
        return tpl('boost::mpl::string', a)
    raise ValueError(container)


def session(case, container, variant):
    """The C++ expression running one session."""
    h = int(hashlib.md5(('%d/%d' % (case['id'], variant)).encode()).hexdigest()[:7], 16)
    raw = bool(h & 4) and not any(t['k'] in ('foldlsp', 'foldlrisp', 'nt') for p in case['ps'] for t in walk(p))
    e = Emitter(h, raw, (h >> 4) % 3 == 0)
    ps = 'vp::nil'
    for t in reversed(case['ps']):
        ps = 'vp::L<%s, %s >' % (e.term(t), ps)
    return 'vp::session%s<%s, %s, %s >(%d);' % (
        ('', '_wrap', '_type')[(h >> 6) % 3], ps, text(case['in'], container, h >> 8), position(case['start'], h), case['id'])


def walk(t):
    yield t
    for f in ('p', 'q', 'z'):
        if f in t:
            yield from walk(t[f])
    for x in t.get('ps', ()):
        yield from walk(x)


def fits98(case, seq=5, ocx=10, oneof=20, string=32):
    """Within the C++98 configuration limits given."""
    if len(case['in']) > string:
        return False
    for p in case['ps']:
        for t in walk(p):
            k = t['k']
            n = len(t.get('ps', ()))
            if k in ('seq', 'first', 'last', 'nth') and n > seq:
                return False
            if k == 'seq' and n == 0:
                return False
            if k in ('oneof', 'rep1of', 'rep1of1') and n > oneof:
                return False
            if k == 'ocx' and len(t['cs']) > ocx:
                return False
            if k == 'oneofc' and len(t['cs']) > oneof:
                return False
            if k == 'iterate' and t['n'] > 20:
                return False
            if k == 'keyword' and len(t['s']) > string:
                return False
    return True


def fits_any(case, seq=5, **_):
    for p in case['ps']:
        for t in walk(p):
            if t['k'] == 'seqapply' and not 1 <= len(t['ps']) < seq:
                return False
    return True
