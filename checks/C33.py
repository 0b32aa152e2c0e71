"""C33 the transducer of edits."""
from vt import *
import editdist as T


def main(chk):
    T.check(chk, chk.n(80, 120), chk.n(3, 4), chk.n(40, 100))
    chk.assumptions = ['longer words behave as those tried']
