"""C31 data for one variety of a language."""
from vt import *
import trees as T


def main(chk):
    T.check(chk, ['gen', 'rules', 'xml', 'dix', 'default'], chk.n(500, 6000), chk.n(False, True))
    chk.assumptions = ['varieties are named by words without commas and blanks', 'marks for varieties are on elements between which is no text']
