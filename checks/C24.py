"""C24 wblank-mode: word-bound blanks attached after analysis and detached before generation."""
from vt import *
import modes as M


def main(chk):
    M.wblank_mode(chk, chk.n(1000, 10000), chk.n(2, 3))
    chk.assumptions = ["no '|' inside quotes; words of a mode are separated by one space, as apertium-gen-modes writes them, the names of files quoted"]
