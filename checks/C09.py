"""C09: word-bound blanks follow the lemma they belong to through transfer."""
from vt import *
import xfer, xsuite


def main(chk):
    R, C = xsuite.wblanks(3)
    xfer.run_all(chk, 'word-bound blanks', R, C)
    for st in 'tp':
        R, C = xfer.random_suite(chk, st, chk.n(60, 400), chk.n(40, 80), wb=0.75, reject=0.1)
        xfer.run_all(chk, 'random rules, stage ' + st, R, C)
    chk.assumptions = ['well-formed streams; a word-bound blank stands directly before its word']
