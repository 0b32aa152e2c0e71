"""C25 adapt-docx: the runs of a paragraph end at words, and nothing else changes."""
from vt import *
import docx as D


def main(chk):
    D.check(chk, chk.n(4000, 40000), chk.n(5, 7))
    chk.assumptions = ['a text element holds text only (no comment or CDATA section inside)', 'letters beyond the 9 of the specification behave as these']
