"""C21 extract-caps: the case of surface form and lemma goes into a word-bound blank, nothing else changes."""
from vt import *


def main(chk):
    tool = vbuild.build('apertium-extract-caps')['apertium-extract-caps']
    t = tlc('MCExtractCaps', 'INIT Init\nNEXT Next\nCONSTANTS MaxItems = %d\nINVARIANTS Values EDump\n' % chk.n(2, 2), mem='10g', timeout=800)
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace)
    chk.add_tlc(t)
    cs = sorted((c['k'], c['i'], c['o']) for c in tlc_cases(t))
    for keep in (False, True):
        sub = [(i, o) for k, i, o in cs if k == keep]
        for c in sub[len(sub) // 2:len(sub) // 2 + 2]:
            chk.sample({'from': 'TLC', 'keep': keep, 'in': c[0], 'out': c[1]})
        replay_batch(chk, 'extract-caps', [tool] + (['-s'] if keep else []) + ['-z'], sub)
    # one case per process without -z
    r = chk.rng
    one = r.sample(cs, chk.n(200, 2000))
    for (k, i, o), q in zip(one, pmap(lambda c: run([tool] + (['-s'] if c[0] else []), c[1]), one)):
        if q.rc != 0 or q.text != o:
            chk.violation('extract-caps: the specification maps %r to %r, the program wrote %r (exit %s)' % (i, o, q.text, q.rc),
                          {'cmd': [tool] + (['-s'] if k else []), 'input': i, 'expected': o, 'observed': q.text})
    chk.traces += len(one)
    chk.extra['cases_replayed_into_code'] = len(cs)
    chk.assumptions = ['tagged units ^surface/analysis$ (or several analyses, of which the first counts); no escaped "<" in lemmas']
