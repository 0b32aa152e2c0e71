"""C11: interchunk rewrites chunks by their name and tags and never touches their contents."""
from vt import *
import xfer, xsuite


def main(chk):
    R, C = xsuite.suites(xsuite.matching('i', chk.n(3, 5)), xsuite.blanks('i', 2), xsuite.parts('i', ['<sg>', '<pl>', '<m>'], 2))
    xfer.run_all(chk, 'interchunk', R, C)
    R, C = xfer.random_suite(chk, 'i', chk.n(120, 600), chk.n(40, 80), reject=0.1)
    xfer.run_all(chk, 'random interchunk rules', R, C)
    chk.assumptions = ['well-formed streams; a chunk has a name or tags']
