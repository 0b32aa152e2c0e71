"""C32 lexical selection rules written out: macros, sequences, repetitions."""
from vt import *
import trees as T


def main(chk):
    T.check(chk, ['macro', 'repeat'], chk.n(400, 6000), chk.n(False, True))
    chk.assumptions = ['one repetition per rule', 'macros are called directly among the rules, and call no macros']
