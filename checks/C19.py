"""C19 the perceptron tagger: features, beam search, training."""
from vt import *
import math
import percep as P
from percep import *


def words_feats():
    """every way to address a word within three units and words"""
    fs = []
    rng = range(-3, 4)
    for dt in rng:
        for dw in rng:
            for how in ('raw', 'adjust', 'clamp'):
                a = n2('addaddr', HERE, n2('ints', I(dt), I(dw)))
                a = a if how == 'raw' else n1(how, a)
                fs.append([n1('outstr', n1('lemma', word(a))), n1('outmany', n1('tags', word(a))), n1('outstr', n1('coarse', word(a)))])
        t = n2('add', n0('tokaddr'), I(dt))
        fs.append([n1('outstr', n1('surf', t)), n1('outstr', join(n1('ambgset', t), '-'))])
        fs.append([n1('outmany', each('w', n1('wordoids', t), n1('lemma', var('w'))))])
        fs.append([n1('outint', n1('arrlen', n1('ambgset', t))), n1('outint', n0('wrdidx')), n1('outint', n0('sentlen')), n1('outint', n1('toklen', n0('tokaddr')))])
    return fs


def part_feats():
    fs = []
    tags = n1('tags', word())
    for a in range(-3, 4):
        for b in range(-3, 4):
            fs.append([n1('outstr', sl('s', n1('surf', n0('tokaddr')), a, b)), n1('outstr', join(sl('l', tags, a, b)))])
        fs.append([n1('outstr', sub(tags, a)), n1('outstr', n1('lemma', sub(n1('wordoids', n0('tokaddr')), a))), n1('outint', n1('strlen', sub(tags, a)))])
        fs.append([n1('outmany', each('v', n1('wordoids', n0('tokaddr')), sub(n1('tags', var('v')), a)))])
    return fs


def cond_feats():
    fs = []
    for k in ('eq', 'neq', 'lt', 'lte', 'gt', 'gte'):
        for v in range(-1, 3):
            fs.append([n1('outbool', n2(k, n0('tokaddr'), I(v)))])
            fs.append([n1('outbool', n2(k, I(v), n2('add', n0('wrdidx'), n0('tokaddr'))))])
    T, F = n2('eq', I(1), I(1)), n2('eq', n0('tokaddr'), I(1))
    lits = [T, F, n1('not', F)]
    ops = [lambda *x: {'k': 'and', 'es': list(x)}, lambda *x: {'k': 'or', 'es': list(x)}]
    for o in ops:
        for x in lits:
            fs.append([n1('outbool', o(x))])
            for y in lits:
                fs.append([n1('outbool', o(x, y))])
                fs.append([n1('pred', o(x, y)), n1('outstr', n1('lemma', word()))])
                for o2 in ops:
                    fs.append([n1('outbool', o(n1('not', o2(x, y)), F)), n1('outbool', o(o2(x, y), F, T))])
    for s in (['n'], ['n', 'sg'], ['det', 'pl'], ['vb', 'inf', 'sg']):
        for k in ('sethasany', 'sethasall'):
            fs.append([n1('outbool', SET(k, n1('tags', word()), *s))])
        fs.append([n1('outbool', SET('strin', n1('lemma', word()), *s))])
    return fs


def nest_feats():
    """loops in loops, macros"""
    W = n1('wordoids', n0('tokaddr'))
    prev = n1('wordoids', n2('add', n0('tokaddr'), I(-1)))
    tg = lambda v: n1('tags', var(v))
    fs = [
        [n1('outmany', each('w', W, n1('lemma', var('w'))))],
        [n1('outstr', n1('surf', n0('tokaddr'))), n1('outmany', each('w', W, join(each('u', prev, n1('lemma', var('u'))), '-')))],
        [n1('outmany', each('w', W, join(each('t', tg('w'), var('t'))))), n1('outint', n0('wrdidx'))],
        [n1('outmany', each('w', W, join(each('u', prev, join(each('t', tg('w'), sub(tg('u'), 1)), '+')), '-'))), n1('outint', n0('tokaddr'))],
        [n1('outmany', each('t', sl('l', n1('tags', word()), 0, 2), var('t')))],
        [n1('outstr', n1('lemma', sub(each('w', W, var('w')), 1)))], [n1('outstr', n1('lemma', sub(each('w', W, sub(each('u', prev, var('w')), 2)), 0)))],
        [n1('outmany', n1('tags', word())), n1('outmany', n1('ambgset', n0('tokaddr')))],
        [n1('outmany', n1('tags', word())), n1('outmany', n1('tags', word(at(-1)))), n1('outmany', n1('tags', word(at(-2))))],
        [n1('outint', n2('add', mac(1, n0('tokaddr'), I(3)), I(0)))], [n1('outint', n2('add', mac(1, I(3), n0('tokaddr')), I(0)))], [n1('outint', n2('add', mac(1, mac(1, I(1), I(2)), mac(1, n0('wrdidx'), I(-2))), I(0)))],
        [n1('outstr', mac(2, word(at(-1)), word()))], [n1('outstr', mac(2, sub(W, -1), word(at(1))))],
        [n1('outmany', mac(3, n0('tokaddr')))], [n1('outstr', join(mac(3, n2('add', n0('tokaddr'), I(-1)))))],
        [n1('outmany', mac(3, n2('add', n0('tokaddr'), I(-2)))), n1('outmany', mac(3, n0('tokaddr')))],
    ]
    ms = [{'args': ['p', 'q'], 'body': n2('add', n2('add', var('p'), I(1)), n2('add', var('q'), var('q')))},
          {'args': ['p', 'q'], 'body': sl('s', n1('lemma', var('q')), 0, 2)},
          {'args': ['p'], 'body': each('x', n1('wordoids', var('p')), n1('lemma', var('x')))}]
    ms[1]['body'] = join(each('y', n1('tags', var('p')), join(each('z', n1('tags', var('q')), var('z')), '-')), '+')
    return fs, ms


def features(chk):
    r = chk.rng
    nest, macros = nest_feats()
    def cut(fs, ms=()):
        fs = [f for f in fs if all(safe(st, ms) for st in f)]
        return [mtx(x[a:a + 100], None, ms) for x in ([f for f in fs if not has(f, 'and', 'or')], [f for f in fs if has(f, 'and', 'or')]) for a in range(0, len(x), 100)]
    ms = cut(words_feats()) + cut(part_feats()) + cut(cond_feats()) + cut(nest, macros)
    preds = [n2('lt', n0('tokaddr'), I(2)), n1('not', S('streq', n1('coarse', word()), 'NOUN'))]
    ms += [mtx([[n1('outstr', n1('lemma', word()))], [n1('outstr', n1('coarse', word(at(-1))))]], p, macros) for p in preds]
    cs = []
    for i in range(len(ms)):
        # every word alone, in pairs, and in longer sentences
        for s, as_ in LEX:
            us = [unit(s, *as_)]
            cs.append({'sp': i + 1, 'us': us, 'tg': tagging(r, us)})
        for _ in range(chk.n(10, 120)):
            us = sentence(r, r.choice([2, 3, 4, 5]), r.random() < .5)
            cs.append({'sp': i + 1, 'us': us, 'tg': tagging(r, us)})
    fixed = len(ms)
    for _ in range(chk.n(200, 1200)):
        ms.append(Gen(r).mtx(d=r.choice([2, 3, 3, 4]), nf=r.choice([3, 5, 8]), nm=r.choice([0, 2, 3, 4])))
        for _ in range(6):
            us = sentence(r)
            cs.append({'sp': len(ms), 'us': us, 'tg': tagging(r, us)})
    chk.samples.append({'.mtx file': mtx_xml(ms[-1]), 'units': ''.join(map(show, cs[-1]['us'])), 'tagging': cs[-1]['tg']})
    P.features_run(chk, 'features', ms, cs)
    chk.extra['feature templates'] = sum(len(m['feats']) for m in ms)
    chk.extra['random .mtx files'] = len(ms) - fixed
    chk.extra['tagged sentences'] = len(cs)


# --------------------------------------------------------------------------- weights
def templates(r):
    """.mtx files whose features tell the analyses apart, for the searches"""
    h, p1, p2, n_ = word(), word(at(-1)), word(at(-2)), n2('add', n0('tokaddr'), I(1))
    bi = [[n1('outstr', n1('lemma', h)), n1('outmany', n1('tags', h))],
          [n1('outstr', n1('coarse', p1)), n1('outstr', n1('coarse', h))],
          [n1('outstr', n1('coarse', p2)), n1('outstr', n1('coarse', p1)), n1('outstr', n1('coarse', h))],
          [n1('outstr', n1('surf', n_)), n1('outstr', join(n1('tags', h)))]]
    return r.sample(bi, r.choice([1, 2, 3]))


def weigh(r, ws):
    return {k: r.choice([-90, -50, -33, -20, -7, -3, -2, -1, 1, 2, 3, 5, 13, 30, 37, 60, 80]) for k in ws}


def misaligned(r, ss):
    """the sentences of a tagged and an untagged corpus that need not agree"""
    tg, un = [], []
    for s in ss:
        a, b = list(s), list(s)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            w = r.choice([a, b])
            how = r.choice(['ins', 'del', 'surf'])
            if not w:
                break
            i = r.randrange(len(w))
            if how == 'ins':
                s_, an = r.choice(LEX)
                w.insert(i, unit(s_, *an))
            elif how == 'del' and (len(w) > 1 or r.random() < .3):
                w.pop(i)
            elif how == 'surf':
                s_, an = r.choice(LEX)
                w[i] = unit(s_, *an)
        tg += a
        un += b
    return tg, un


def choose(r, us, wrong=.0):
    """a tagged corpus"""
    res = []
    for u in us:
        an = [r.choice(u['ans'])] if u['ans'] else []
        if u['ans'] and r.random() < wrong:
            an = [] if r.random() < .3 else [ana(r.choice([x for _, as_ in LEX for x in as_]))]
        res.append(dict(u, ans=an))
    return res


def branching(us, beam):
    """at most so many ways to search a sentence, all scores being equal"""
    n, res = 1, 1
    for u in us:
        if len(u['ans']) > 1:
            g = n * len(u['ans'])
            n = min(g, beam)
            res *= math.comb(g, n)
    return res * n


def split(us, seg):
    ss, cur = [], []
    for u in us:
        cur.append(u)
        if u['surf'] == ['.'] and (u['blank'] or not seg):
            ss.append(cur)
            cur = []
    return ss + [cur] if cur else ss


def ways(us, beam, it, seg=False):
    ss = split(us, seg)
    return (math.prod(branching(s, beam) for s in ss) * math.factorial(len(ss))) ** it


def one_model(chk, sp, m, r, nrec):
    """recorded runs with one .mtx file: (records, faults)"""
    name = 'm%d' % sp
    p = write_mtx(chk.tmp, name, m)
    rep = {'mtx': mtx_xml(m), 'tsx': tsx()}
    pre, e = prefix(chk, name, p)
    if e:
        return [], [(e, rep)]
    recs, faults = [], []
    seen = {}
    for j in range(nrec):
        kind = r.choice(['plain', 'plain', 'wrong', 'misaligned', 'misaligned', 'seg'])
        k, it = r.choice([(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)])
        if kind in ('misaligned', 'wrong'):
            k, it = r.choice([(2, 1), (3, 1), (4, 1), (2, 2)])
        ss = [few(r, 2 if k < 3 and m['beam'] < 6 else 1, stop=r.random() < .9) for _ in range(k)]
        flags = ['-e'] if kind == 'misaligned' and r.random() < .85 or kind == 'wrong' and r.random() < .6 else []
        if kind == 'misaligned':
            tg, un = misaligned(r, ss)
            if not tg or not un:
                continue
        else:
            un = [u for s in ss for u in s]
            tg = un
        tg = choose(r, tg, .25 if kind == 'wrong' else 0)
        if kind == 'seg' or kind == 'misaligned' and r.random() < .4:
            # blank lines end sentences, full stops alone do not
            flags = ['-b'] + flags
            if kind == 'seg':
                bl = [r.random() < .6 for _ in un]
                un = [dict(u, blank=b) for u, b in zip(un, bl)]
                tg = [dict(u, blank=b) for u, b in zip(tg, bl)]
            else:
                un, tg = ([dict(u, blank=u['surf'] == ['.'] and r.random() < .7) for u in x] for x in (un, tg))
        if ways(un, m['beam'], it, '-b' in flags) > 20000:
            continue
        b, q = run_train(chk, name, p, tg, un, it, flags)
        rp = dict(rep, tagged=''.join(map(show, tg)), untagged=''.join(map(show, un)), iterations=it, flags=flags)
        if q.rc == 'hang' or q.rc < 0 or q.rc > 128:
            faults.append(('training: exit %s %s' % (q.rc, q.err[-200:]), rp))
            continue
        ws = {}
        if b is not None:
            try:
                if not b.startswith(pre):
                    raise ValueError('another .mtx file')
                ws = parse_weights(b[len(pre):])
            except (ValueError, IndexError) as x:
                faults.append(('unreadable model: %r' % x, rp))
                continue
        seen.update(ws)
        recs.append(({'mode': 'train', 'sp': sp, 'tg': tg, 'un': un, 'iter': it, 'skip': '-e' in flags, 'seg': '-b' in flags, 'ok': b is not None, 'w': wrec(ws, 1000000)},
                     dict(rp, exit=q.rc, err=q.err[-300:].decode('utf-8', 'replace'), weights=[[f, list(x), v] for (f, x), v in sorted(ws.items())])))
        if not seen:
            continue
        # the same features with other weights
        w2 = weigh(r, seen)
        mp = os.path.join(chk.tmp, name + '.weighed')
        with open(mp, 'wb') as fd:
            fd.write(pre + weights_bytes(w2))
        us = [u for _ in range(chk.n(3, 5)) for u in few(r, 3, 5, stop=r.random() < .9)]
        for _ in range(r.choice([0, 0, 1, 2])):
            us.insert(r.randrange(len(us) + 1), STOP)
        seg = r.random() < .2
        opts = r.choice([[], [], ['-p'], ['-f'], ['-m'], ['-f', '-m'], ['-p', '-m'], ['-f', '-p']])
        if seg:
            us = [dict(u, blank=r.random() < .5) for u in us]
        if any(branching(x, m['beam']) > 4000 for x in split(us, seg)):
            continue
        text = ''.join(map(show, us))
        o = vt.run([tool('tagger', p), '-g', '-x'] + (['-b'] if seg else []) + opts + [mp], text)
        rp = dict(rep, weights=[[f, list(x), v] for (f, x), v in sorted(w2.items())], text=text, output=o.text, options=opts)
        ch = parse_tagged(o.text, us, opts) if o.rc == 0 else None
        if ch is None:
            faults.append(('tagging: exit %s, not the units of the input with one of their analyses each' % o.rc, rp))
            continue
        recs.append(({'mode': 'tag', 'sp': sp, 'us': us, 'ch': ch, 'seg': seg, 'w': wrec(w2)}, rp))
    return recs, faults


def control(recs, r):
    """records that are no behaviours: what was chosen, or learnt, made another"""
    for x in recs:
        if x['mode'] == 'train' and x['ok'] and x['w']:
            y = json.loads(json.dumps(x))
            y['w'][0]['v'] += 700000
            yield y
            y = json.loads(json.dumps(x))
            y['ok'] = False
            yield y


def searches(chk):
    r = chk.rng
    ms = [mtx(templates(r), beam=b) for b in (1, 1, 2, 2, 3, 4, 6)] * chk.n(2, 6)
    ms += [Gen(r).mtx(beam=r.choice([1, 2, 3, 4, 6])) for _ in range(chk.n(14, 100))]
    jobs = [(i + 1, m, random.Random(r.random())) for i, m in enumerate(ms)]
    recs, reps = [], []
    nf = 0
    for rs, fs in vt.pmap(lambda j: one_model(chk, j[0], j[1], j[2], chk.n(9, 12)), jobs):
        for x, rp in rs:
            recs.append(x)
            reps.append(rp)
        for what, rp in fs:
            nf += 1
            if nf <= 3:
                chk.violation('weights: ' + what, rp)
    ctl = list(control(recs, r))[:20]
    if not ctl:
        raise CheckError('no weights were learnt at all')
    chk.samples += [{k: rp[k] for k in rp if k not in ('mtx', 'tsx')} for rp in reps[:2]]
    for a in range(0, len(recs), 400):
        part = recs[a:a + 400]
        bad = validate(chk, 'weights', ms, part + ctl, timeout=chk.n(400, 3000))
        if [i for i in bad if i >= len(part)] != list(range(len(part), len(part) + len(ctl))):
            raise CheckError('a control record was accepted')
        for i in [i for i in bad if i < len(part)][:3]:
            x = part[i]
            chk.violation('weights: %s' % ('the tagging of %r is not what the beam search gives' % reps[a + i]['text'] if x['mode'] == 'tag' else
                                           'the outcome of training is that of no order of the sentences'), reps[a + i])
        chk.traces += len(part) - len([i for i in bad if i < len(part)])
        ctl = ctl[:2]
    chk.extra['recorded trainings'] = sum(x['mode'] == 'train' for x in recs)
    chk.extra['trainings refused'] = sum(x['mode'] == 'train' and not x['ok'] for x in recs)
    chk.extra['recorded taggings'] = sum(x['mode'] == 'tag' for x in recs)
    chk.extra['control records'] = 20


def main(chk):
    features(chk)
    searches(chk)
    chk.assumptions = [
        'features do not use inst and pathlen, nor what is listed under C19 in known_findings.json; subscripts are of lists that are not empty; <toklen> is of units in range; loops compile to less than 256 bytes; macro arguments do not use loop variables; <strlen> and <slice> are applied to ASCII text',
        'a slice that starts past the end gives the last element; a feature with one empty part and one without parts are not told apart in the trace',
        'weights are small integers (tagging) or means of them compared to a millionth (training); equal scores may be ordered either way, and sentences shuffled in any order',
        'at most three ambiguous units a sentence when tagging and two when training']
