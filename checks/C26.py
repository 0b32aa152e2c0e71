"""C26 the apertium command: what its arguments ask for is what runs."""
from vt import *
import driver as D


def main(chk):
    D.check(chk, chk.n(350, 4000), chk.n(2, 2))
    chk.assumptions = ['programs replaced by ones that write down their names and arguments; TMPDIR without words that occur in office file names']
