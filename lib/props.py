from core import TIER
from parsers import *
import strings as str_
import literals
import grammars
import reports
import values

Q = TIER != 'thorough'


def parser_check(family, asp, configs=None, machine=1000):
    # (config, every n-th session)
    std = configs or [(G17, 1), (G98, 1), (G11, 1), (G14, 2), (C17, 12), (C98, 36), (G98T, 1)]

    def f(chk, d):
        full = [(c, 1 if not Q else n) for c, n in std]
        check_parsers(chk, d, family, asp, full, machine if Q else 20000)
    return f


CHECKS = {
    'X00': parser_check('X00', 'all'),
    'C01': lambda chk, d: (editor_probe(chk, d), parser_check('pos', 'pos')(chk, d)),
    'C02': parser_check('rem', 'rem', [(G17, 1), (G17L, 2), (G98, 2), (G98V, 4), (G11, 3), (G14, 2), (C17, 24), (G98T, 1)]),
    'C03': parser_check('chars', 'all'),
    'C04': parser_check('seq', 'all'),
    'C05': parser_check('choice', 'all'),
    'C06': parser_check('look', 'all'),
    'C07': parser_check('foldl', 'all'),
    'C08': parser_check('foldr', 'all'),
    'C09': parser_check('ri', 'all'),
    'C10': parser_check('err', 'err'),
    'C11': parser_check('res', 'all'),
    'C12': parser_check('lex', 'all'),
    'C13': parser_check('rec', 'all'),
    'C14': parser_check('mix', 'all', [(G17, 1), (G98, 1), (G11, 1), (G14, 1), (C17, 2), (C98, 4), (G98T, 1), (G98V, 3), (F98, 3), (F11, 3),
                                         (G20, 4), (G23, 7), (C11, 15), (C14, 15), (C23, 15)]),
    'C22': parser_check('limits', 'all', [(G98, 1), (G98W, 1), (G98N, 1), (G98X, 2), (C98W, 6), (G17, 4), (G17W, 4)]),
    'C23': parser_check('lazy', 'all', machine=1500),
    'C16': literals.check_literals,
    'C17': grammars.check_grammars,
    'C18': reports.check_reports('build'),
    'C19': reports.check_reports('debug'),
    'C20': values.check_values('util'),
    'C21': values.check_values('core'),
    'C15': str_.check_strings,
}
