"""C17 tagger decisions of the hidden Markov and the sliding-window model against the model's own numbers."""
from vt import *
import tagger as T


def main(chk):
    r = chk.rng
    sets = T.sets_basic()
    models = []
    for rep in range(chk.n(2, 6)):
        models += [T.rand_hmm(r, i + 1, sets[i], T.CLASSES[i], spread=r.choice([1, 3, 8]), hole=r.choice([0, .1, .3])) for i in range(3)]
        models += [T.rand_lsw(r, i + 1, sets[i], T.CLASSES[i], top=r.choice([1, 3, 9])) for i in range(3)]
    cs = T.exhaustive(sets, models, r, 2, chk.n(.6, 1)) + T.randoms(models, r, chk.n(1500, 15000))
    T.run_all(chk, 'tagger', sets, models, cs, alone=chk.n(4, 12))
    s2, m2, c2 = T.rand_tag_suite(r, chk.n(40, 200), chk.n(1500, 12000))
    T.run_all(chk, 'random-tagsets', s2, m2, c2, alone=chk.n(2, 4))
    chk.extra['cases'] = len(cs) + len(c2)
    chk.extra['models'] = len(models) + len(m2)
    chk.assumptions = ['model weights are powers of two (hidden Markov) or small integers (window), so that sums and products are exact in the program; ties may be decided either way',
                       'the analyses of a unit split into the same number of parts and differ in the first part only; -f not combined with split units',
                       'no underflow: stretches of ambiguous words are at most nine units long']
