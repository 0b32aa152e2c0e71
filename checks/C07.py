"""C07: blanks are conserved by every transfer stage."""
from vt import *
import xfer, xsuite


def main(chk):
    for st in 'tip':
        R, C = xsuite.blanks(st, 4 if st != 'p' or chk.thorough else 3, rich=chk.thorough)
        xfer.run_all(chk, 'blanks, stage ' + st, R, C)
    for st in 'tip':
        R, C = xfer.random_suite(chk, st, chk.n(40, 300), chk.n(40, 80), reject=0.2, wb=0.1)
        xfer.run_all(chk, 'random rules, stage ' + st, R, C)
    chk.extra['bounds'] = 'patterns of 1..3 words (chunks of 0..n+1 words in postchunk), 5 ways of writing blanks, every choice of blanks'
    chk.assumptions = ['well-formed streams']
