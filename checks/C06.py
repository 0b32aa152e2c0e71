"""C06: left-to-right longest-match rule selection, default treatment, every word once."""
from vt import *
import xfer, xsuite


def main(chk):
    L = chk.n(4, 5)
    for st in 'ti':
        R, C = xsuite.matching(st, L)
        xfer.run_all(chk, 'matching, stage ' + st, R, C)
    for st in 'tip':
        R, C = xfer.random_suite(chk, st, chk.n(40, 300), chk.n(40, 80), nrules=(2, 8), macros=False)
        xfer.run_all(chk, 'random rules, stage ' + st, R, C)
    chk.extra['bounds'] = 'all sequences of up to %d words over 4 words, 5 rule files' % L
    chk.assumptions = ['well-formed streams', 'categories and rule files as generated (no two rules of the same word sequence in a different category spelling)']
