"""C30 tmxbuild: sentences of a text and its translation, paired in order."""
from vt import *
import tmx as T


def main(chk):
    T.check(chk, chk.n(1500, 12000), chk.n(2, 3), chk.n(2, 2))
    chk.assumptions = ['letters beyond those of the specification behave as these', 'texts shorter than 260 characters, none holding <ph/> or <p> as text']
