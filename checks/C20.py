"""C20 training of the HMM and sliding-window taggers."""
from vt import *
import tagger as T, train as R


def main(chk):
    r = chk.rng
    sets = [R.with_rules(r, s, i) for s in T.sets_basic() for i in range(4)]     # no rules, forbidden pairs, enforcement, both
    voc = [v for v in T.VOCAB for i in range(4)]
    for _ in range(chk.n(24, 100)):
        s = T.rand_set(r)
        while not T.open_class(s) or len(T.open_class(s)) > 6:
            s = T.rand_set(r)
        sets.append(R.with_rules(r, s, r.randrange(4)))
        voc.append([T.rand_unit(r) for _ in range(10)])
    cases = []
    want = chk.n(900, 9000)
    while len(cases) < want:
        i = r.randrange(len(sets))
        mode = r.choice(['sup', 'uns', 'lsw'])
        c = R.make_case(r, i + 1, voc[i], mode, 1, r.choice([2, 5, 12, 30]), r.choice([0, 0, 1, 2, 3]), late=mode != 'lsw' and r.random() < .2,
                        again=r.choice([0, 0, 1, 2]))
        if mode != 'lsw' and (R.long_stretch(c['raw'], 4) or not c['raw']):
            continue
        cases.append(c)
    w = R.run_all(chk, 'training', sets, cases)
    chk.extra['cases'] = len(cases)
    k = next(i for i, c in enumerate(cases) if c['mode'] == 'sup' and not w[i]['refused'] and len(c['crp']) < 5)
    chk.sample({'dictionary': R.text(cases[k]['dic']), 'tagged': R.text(cases[k]['tagged']), 'untagged': R.text(cases[k]['crp']), 'classes': w[k]['cl'], 'A': w[k]['r']['A']})
    chk.assumptions = ['no ambiguous word in the tagged corpus', 'corpora of at least one word', 'ambiguity classes of up to six tags, stretches of up to four ambiguous words', 'no underflow']
