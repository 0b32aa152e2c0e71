"""C18 unigram tagger: counts, smoothing and choice of the three models."""
import itertools
from vt import *
import tagger as T


def systematic(n, pools):
    models, cs = [], []
    for pool in pools:
        us = [[a] for a in pool] + [list(p) for p in itertools.permutations(pool, 2) if p[0] < p[1]] + [list(pool)]
        for k in range(0, n + 1):
            for corp in itertools.combinations_with_replacement(us, k):
                for kind in (1, 2, 3):
                    models.append({'kind': kind, 'corpus': [[T.sy(a) for a in u] for u in corp]})
                    cs.append(T.case(len(models), [T.unit('s', *p) for p in itertools.permutations(pool)]))
    return models, cs


POOLS = [['a<n>', 'b<n>', 'a<v>'], ['a<n>+b<v>', 'a<n>', 'b<n>+b<v>'], ['a<n># o', 'a<n>', 'b<n>'], ['a<n>+b<v>+c<v>', 'a<n>+c<v>', 'b<n>+c<n>']]


def main(chk):
    for name, (m, c) in [('systematic', systematic(chk.n(2, 4), POOLS)), ('random', T.unigram_randoms(chk.rng, chk.n(80, 600), chk.n(1500, 15000)))]:
        T.unigram_run(chk, name, m, c)
        chk.extra['models_' + name] = len(m)
        chk.extra['cases_' + name] = len(c)
    chk.assumptions = ['lemmas and tags inside ASCII (see known findings)', 'no empty units; every part of an analysis has a tag', 'counts below 10^5']
