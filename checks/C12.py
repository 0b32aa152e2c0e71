"""C12: postchunk resolves tag references, applies the case of the chunk and unwraps its words."""
from vt import *
import xfer, xsuite


def main(chk):
    R, C = xsuite.suites(xsuite.references(2 if not chk.thorough else 3), xsuite.blanks('p', 2))
    xfer.run_all(chk, 'postchunk', R, C)
    R, C = xfer.random_suite(chk, 'p', chk.n(120, 600), chk.n(40, 80), reject=0.1)
    xfer.run_all(chk, 'random postchunk rules', R, C)
    chk.assumptions = ['well-formed streams']
