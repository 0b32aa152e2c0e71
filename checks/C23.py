"""C23 gen-modes: the command lines of the modes, their debug modes, and where they go."""
from vt import *
import modes as M


def main(chk):
    M.gen_modes(chk, M.gm_cases(chk.rng, chk.n(500, 5000)))
    chk.assumptions = ['modes.xml valid by its DTD (no empty attributes), programs named as in language data; names of modes in ASCII']
