"""C16 taggers: every unit of the text comes out once, in order, with its blanks and one of its own analyses; a flush is answered."""
from vt import *
import tagger as T


def stream_vocab(r):
    pool = [T.rand_ana(r) for _ in range(12)] + ['.<sent>', 'ñandú<n>', 'a\\/b<n>', '\\$<v><p3>+a<n>']
    us = T.rand_units(r, 24, pool, hi=5)
    us += [T.unit('.', '.<sent>'), T.unit('a\\^b', 'a\\^b<n>', 'a<v>'), T.unit('x\\/y', unk=True)]
    return us


def texts(chk, r, voc, n, long_, opts, unk=True):
    cs = []
    for i in range(n):
        k = r.randint(0, 6) if i % 10 else long_
        us = [dict(r.choice(voc), bl=T.rand_blank(r)) for _ in range(k)]
        cs.append(T.case(0, us, 'f' in opts, 'p' in opts, 'm' in opts, T.rand_tail(r)))
    return cs


OPTS = ['', 'f', 'p', 'm', 'fp', 'pm', 'fpm', 'fm']


def main(chk):
    r = chk.rng
    tool = vbuild.build('apertium-tagger')['apertium-tagger']
    jobs = []
    n = chk.n(40, 250)
    # models over a tagset: with weights of all sorts
    sets = T.sets_basic()
    s2, _, _ = T.rand_tag_suite(r, chk.n(3, 10), 0)
    voc = list(T.VOCAB) + [[T.rand_unit(r) for _ in range(14)] for _ in s2]
    cls = list(T.CLASSES) + [[] for _ in s2]
    sets = sets + s2
    bases = pmap(lambda x: T.Base(chk, x[1], 'ts%d' % x[0]), list(enumerate(sets)))
    for i, s in enumerate(sets):
        splits = [u for u in voc[i] if any('+' in a for a in u['anas'])]
        for kind in ('hmm', 'lsw'):
            m = T.rand_hmm(r, i + 1, s, cls[i], spread=r.choice([1, 4]), hole=.03) if kind == 'hmm' else T.rand_lsw(r, i + 1, s, cls[i])
            path = os.path.join(chk.tmp, '%s-%d.prob' % (kind, i))
            with open(path, 'wb') as fd:
                fd.write(T.model_bytes(bases[i], m))
            for o in OPTS:
                if 'f' in o and kind == 'lsw':
                    continue
                v = [u for u in voc[i] if u not in splits] if 'f' in o else voc[i]
                jobs.append((kind, [tool, '-g'] + (['-w'] if kind == 'lsw' else []) + ['-' + x for x in o] + ['-z', path], i + 1, texts(chk, r, v, n, 25, o)))
    sv = stream_vocab(r)
    for kind in (1, 2, 3):
        path = os.path.join(chk.tmp, 'u%d' % kind)
        T.unigram_train(tool, kind, [u['anas'] for u in sv if not u['unk']], path, chk.tmp)
        for o in OPTS:
            jobs.append(('unigram %d' % kind, [tool, '-g', '-u', str(kind)] + ['-' + x for x in o] + ['-z', path], 0, texts(chk, r, sv, n, 60, o)))
    known = [u for u in sv if not u['unk']]
    corpus = [(u, r.randrange(len(u['anas']))) for u in (r.choice(known) for _ in range(60))] + [(T.unit('.', '.<sent>'), 0)]
    path = T.perceptron_train(chk, 'perc', corpus)
    for seg in ([], ['-b']):
        for o in OPTS:
            jobs.append(('perceptron', [tool, '-g', '-x'] + seg + ['-' + x for x in o] + ['-z', path], 0, texts(chk, r, sv, n, 60, o)))
    recs = []
    for rs in pmap(lambda j: T.sessions(chk, j[0], j[1], j[2], j[3]), jobs):
        recs += rs
    # the same without flushes: the whole text at once
    singles = []
    for j in jobs:
        for c in j[3][:chk.n(2, 6)]:
            singles.append((j, c))

    def single(x):
        j, c = x
        cmd = [a for a in j[1] if a != '-z']
        q = run(cmd, T.show(c), timeout=20)
        if q.rc != 0:
            chk.violation('%s: exit %s on %r: %s' % (j[0], q.rc, T.show(c), q.err[:300]), {'cmd': cmd, 'input': T.show(c), 'rc': q.rc})
        return {'ts': j[2], 'units': c['units'], 'tail': c['tail'], 'o': c['o'], 'out': q.text, 'cmd': cmd, 'inp': T.show(c)}
    recs += pmap(single, singles)
    T.validate_runs(chk, 'tagger', sets, recs)
    chk.extra['sessions'] = len(jobs)
    chk.extra['texts'] = len(recs)
    chk.sample({'in': recs[7]['inp'], 'out': recs[7]['out'], 'cmd': ' '.join(recs[7]['cmd'][1:])})
    chk.assumptions = ['the analyses of a unit split into the same number of parts and differ in the first part only (see known findings); -f not combined with split units',
                       'units have a surface form and, unless unknown, at least one analysis whose parts all have tags', 'stretches of ambiguous words short enough for no underflow']
