"""apertium-tagger: tagsets, models (composed .prob files), evaluation of specs/MCTagger.tla, replay."""
import itertools, os, struct
import vt
from xml.sax.saxutils import quoteattr
from xfer import sy

CheckError = vt.CheckError
BUILTIN = ['LPAR', 'RPAR', 'LQUEST', 'CM', 'SENT', 'kEOF', 'kUNDEF']


# --------------------------------------------------------------------------- tagsets
def tags(s):
    return [x if x == '*' else '<%s>' % x for x in s.split('.')]


def label(name, *items, closed=False):
    """items: 'tags' or ('lemma', 'tags')"""
    pats = [[{'lem': list(i[0]) if isinstance(i, tuple) else [], 'tags': tags(i[1] if isinstance(i, tuple) else i)}] for i in items]
    return {'name': name, 'closed': closed, 'mult': False, 'pats': pats, 'items': items}


def mult(name, *seqs, closed=False):
    """seqs: lists of labels' names or items"""
    return {'name': name, 'closed': closed, 'mult': True, 'seqs': seqs, 'pats': None}


def tagset(labels, prefer=(), discard=(), forbid=(), enforce=()):
    by = {}
    for l in labels:
        if l['mult']:
            l['pats'] = []
            for s in l['seqs']:
                alts = [[i[0] for i in by[x]['pats']] if isinstance(x, str) else [{'lem': list(x[0]), 'tags': tags(x[1])}] for x in s]
                l['pats'] += [list(c) for c in itertools.product(*alts)]
        by[l['name']] = l
    return {'labels': labels, 'prefer': [tags(p) for p in prefer], 'discard': [tags(p) for p in discard],
            'prefer_': prefer, 'discard_': discard, 'forbid': forbid, 'enforce': enforce}


def tsx(ts):
    o = '<?xml version="1.0" encoding="UTF-8"?>\n<tagger name="t">\n<tagset>\n'
    for l in ts['labels']:
        c = ' closed="true"' if l['closed'] else ''
        if not l['mult']:
            o += '<def-label name="%s"%s>\n' % (l['name'], c)
            for i in l['items']:
                o += '  <tags-item %stags="%s"/>\n' % (('lemma=%s ' % quoteattr(i[0]), i[1]) if isinstance(i, tuple) else ('', i))
            o += '</def-label>\n'
        else:
            o += '<def-mult name="%s"%s>\n' % (l['name'], c)
            for s in l['seqs']:
                o += '  <sequence>\n'
                for x in s:
                    o += '    <label-item label="%s"/>\n' % x if isinstance(x, str) else '    <tags-item %stags="%s"/>\n' % ('lemma=%s ' % quoteattr(x[0]) if x[0] else '', x[1])
                o += '  </sequence>\n'
            o += '</def-mult>\n'
    o += '</tagset>\n'
    if ts['forbid']:
        o += '<forbid>\n' + ''.join('<label-sequence><label-item label="%s"/><label-item label="%s"/></label-sequence>\n' % f for f in ts['forbid']) + '</forbid>\n'
    if ts['enforce']:
        o += '<enforce-rules>\n'
        for a, bs in ts['enforce']:
            o += '<enforce-after label="%s"><label-set>%s</label-set></enforce-after>\n' % (a, ''.join('<label-item label="%s"/>' % b for b in bs))
        o += '</enforce-rules>\n'
    if ts['prefer_']:
        o += '<preferences>\n' + ''.join('<prefer tags="%s"/>\n' % p for p in ts['prefer_']) + '</preferences>\n'
    if ts['discard_']:
        o += '<discard-on-ambiguity>\n' + ''.join('<discard tags="%s"/>\n' % p for p in ts['discard_']) + '</discard-on-ambiguity>\n'
    return o + '</tagger>\n'


def ntags(ts):
    return len(BUILTIN) + len(ts['labels'])


def open_class(ts):
    return [7 + i for i, l in enumerate(ts['labels']) if not l['closed']]


# --------------------------------------------------------------------------- .prob files
class Rd:
    def __init__(self, b):
        self.b, self.p = b, 0

    def mb(self):
        c = self.b[self.p]
        k = c >> 6
        v = c & 0x3f
        for i in range(k):
            v = v << 8 | self.b[self.p + 1 + i]
        self.p += k + 1
        return v

    def st(self):
        return ''.join(chr(self.mb()) for _ in range(self.mb()))

    def dbl(self):
        v = struct.unpack('>d', self.b[self.p:self.p + 8])[0]
        self.p += 8
        return v


def mb(v):
    if v < 0x40:
        return bytes([v])
    if v < 0x4000:
        return bytes([v >> 8 | 0x40, v & 255])
    if v < 0x400000:
        return bytes([v >> 16 | 0x80, v >> 8 & 255, v & 255])
    return bytes([v >> 24 | 0xc0, v >> 16 & 255, v >> 8 & 255, v & 255])


def dbl(x):
    return struct.pack('>d', x)


def parse_prob(b, lsw=False):
    r = Rd(b)
    d = {}
    v, oc = 0, []
    for _ in range(r.mb()):
        v += r.mb()
        oc.append(v)
    d['open'] = oc
    d['forbid'] = [(r.mb(), r.mb()) for _ in range(r.mb())]
    d['array_tags'] = [r.st() for _ in range(r.mb())]
    d['index'] = {}
    for _ in range(r.mb()):
        k = r.st()
        d['index'][k] = r.mb()
    d['enforce'] = []
    for _ in range(r.mb()):
        i = r.mb()
        d['enforce'].append((i, [r.mb() for _ in range(r.mb())]))
    d['prefer'] = [r.st() for _ in range(r.mb())]
    d['constants'] = {}
    for _ in range(r.mb()):
        k = r.st()
        d['constants'][k] = r.mb()
    d['_prefix'] = b[:r.p]
    d['classes'] = [[r.mb() for _ in range(r.mb())] for _ in range(r.mb())]
    d['N'] = n = r.mb()
    if lsw:
        d['D'] = {}
        for _ in range(r.mb()):
            k = (r.mb(), r.mb(), r.mb())
            d['D'][k] = r.dbl()
    else:
        d['M'] = r.mb()
        d['A'] = [[r.dbl() for _ in range(n)] for _ in range(n)]
        d['B'] = {}
        for _ in range(r.mb()):
            k = (r.mb(), r.mb())
            d['B'][k] = r.dbl()
    d['_suffix'] = b[r.p:]
    return d


def classes_bytes(cl):
    return mb(len(cl)) + b''.join(mb(len(c)) + b''.join(mb(t) for t in sorted(c)) for c in cl)


def hmm_prob(base, cl, A, B):
    """A[i][j], B{(i,k)}: real numbers"""
    n = len(A)
    o = base['_prefix'] + classes_bytes(cl) + mb(n) + mb(len(cl)) + b''.join(dbl(x) for row in A for x in row)
    o += mb(len(B)) + b''.join(mb(i) + mb(k) + dbl(x) for (i, k), x in sorted(B.items()))
    return o + base['_suffix']


def lsw_prob(base, cl, D):
    n = len(D)
    e = [(i, j, k, D[i][j][k]) for i in range(n) for j in range(n) for k in range(n) if D[i][j][k]]
    return base['_prefix'] + classes_bytes(cl) + mb(n) + mb(len(e)) + b''.join(mb(i) + mb(j) + mb(k) + dbl(x) for i, j, k, x in e) + base['_suffix']


class Base:
    """The parts of a model file that come from the tagset, made by the real trainer."""
    def __init__(self, chk, ts, name):
        tool = vt.vbuild.build('apertium-tagger')['apertium-tagger']
        d = os.path.join(chk.tmp, name)
        os.makedirs(d)
        self.text = tsx(ts)
        P = lambda f: os.path.join(d, f)
        for f, x in (('TSX', self.text), ('DIC', '^q/q<zz>$\n'), ('CRP', '^q/q<zz>$\n')):
            with open(P(f), 'w') as fd:
                fd.write(x)
        r = vt.run([tool, '-s', '0', P('DIC'), P('CRP'), P('TSX'), P('prob'), P('CRP'), P('CRP')])
        if r.rc != 0 or not os.path.exists(P('prob')):
            raise CheckError('training on the tagset failed: %s\n%s' % (r.err[:500], self.text))
        self.data = parse_prob(open(P('prob'), 'rb').read())
        self.tsx = P('TSX')


# --------------------------------------------------------------------------- models
ZERO = -33219       # 1000 * log2(1e-10)


def rand_classes(r, ts, vocab_sets):
    oc = open_class(ts)
    n = ntags(ts)
    cl = []
    for s in vocab_sets + [oc] + [[i] for i in range(n)]:
        s = sorted(s)
        if s and s not in cl:
            cl.append(s)
    return cl


def rand_hmm(r, tsi, ts, sets, spread=6, hole=.1):
    cl = rand_classes(r, ts, sets)
    n = ntags(ts)
    A = [[-1000 * r.randint(0, spread) for _ in range(n)] for _ in range(n)]
    B = [[ZERO] * len(cl) for _ in range(n)]
    for k, c in enumerate(cl):
        for t in c:
            if r.random() >= hole:
                B[t][k] = -1000 * r.randint(0, spread)
    return {'kind': 'hmm', 'ts': tsi, 'open': open_class(ts), 'classes': cl, 'A': A, 'B': B, 'D': []}


def rand_lsw(r, tsi, ts, sets, top=5):
    cl = rand_classes(r, ts, sets)
    n = ntags(ts)
    return {'kind': 'lsw', 'ts': tsi, 'open': open_class(ts), 'classes': cl, 'A': [], 'B': [],
            'D': [[[r.choice([0] + list(range(top + 1))) for _ in range(n)] for _ in range(n)] for _ in range(n)]}


def model_bytes(base, m):
    if m['kind'] == 'lsw':
        return lsw_prob(base.data, m['classes'], [[[float(x) for x in q] for q in p] for p in m['D']])
    p = lambda v: 2.0 ** (v // 1000)
    B = {(i, k): p(v) for i, row in enumerate(m['B']) for k, v in enumerate(row) if v != ZERO}
    return hmm_prob(base.data, m['classes'], [[p(v) for v in row] for row in m['A']], B)


def unit(surf, *anas, bl=' ', unk=False):
    return {'bl': bl, 'surf': sy(surf), 'unk': unk, 'anas': [sy(a) for a in anas]}


def case(m, units, f=False, p=False, mk=False, tail=''):
    us = [dict(u) for u in units]
    return {'m': m, 'units': us, 'tail': tail, 'o': {'f': f, 'p': p, 'm': mk}}


def show(c):
    o = ''
    for u in c['units']:
        o += u['bl'] + '^' + ''.join(u['surf']) + ('/*' + ''.join(u['surf']) if u['unk'] else ''.join('/' + ''.join(a) for a in u['anas'])) + '$'
    return o + c['tail']


def opts(c):
    return [x for k, x in (('f', '-f'), ('p', '-p'), ('m', '-m')) if c['o'][k]]


def evaluate(chk, sets, models, cases, timeout=800, chunk=20000):
    """allowed outputs of every case"""
    sp, mp, cp = (os.path.join(chk.tmp, x) for x in ('sets.ndjson', 'models.ndjson', 'tcases.ndjson'))
    vt.write_ndjson(sp, [{'labels': [{'pats': l['pats']} for l in s['labels']], 'prefer': s['prefer'], 'discard': s['discard']} for s in sets])
    vt.write_ndjson(mp, models)
    want = {}
    for a in range(0, len(cases), chunk):
        vt.write_ndjson(cp, cases[a:a + chunk])
        t = vt.tlc('MCTagger', 'INIT Init\nNEXT Next\nINVARIANTS DomainOK Optimal OwnTag UnitsKept Dump\n', env={'SETS': sp, 'MODELS': mp, 'CASES': cp}, timeout=timeout)
        if t.violated:
            raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace[:6000])
        chk.add_tlc(t)
        for x in vt.tlc_cases(t):
            want.setdefault(a + x['c'] - 1, set()).add(x['o'])
    if len(want) != len(cases):
        raise CheckError('TLC evaluated %d of %d cases' % (len(want), len(cases)))
    return want


def run_all(chk, label, sets, models, cases, limit=3, alone=0, timeout=800):
    tool = vt.vbuild.build('apertium-tagger')['apertium-tagger']
    want = evaluate(chk, sets, models, cases, timeout)
    bases = vt.pmap(lambda x: Base(chk, x[1], '%s-ts%d' % (label, x[0])), list(enumerate(sets)))
    files = []
    for i, m in enumerate(models):
        f = os.path.join(chk.tmp, '%s-%d.prob' % (label, i))
        with open(f, 'wb') as fd:
            fd.write(model_bytes(bases[m['ts'] - 1], m))
        files.append(f)
    groups = {}
    for k, c in enumerate(cases):
        groups.setdefault((c['m'], tuple(opts(c))), []).append(k)

    def cmd(g, z):
        m, o = g
        return [tool, '-g'] + (['-w'] if models[m - 1]['kind'] == 'lsw' else []) + list(o) + (['-z'] if z else []) + [files[m - 1]]

    def one(g):
        ks = groups[g]
        r = vt.run(cmd(g, True), ''.join(show(cases[k]) + '\0' for k in ks), timeout=60)
        got = r.text.split('\0')
        bad = []
        # the end of the input is a flush of its own
        if r.rc != 0 or len(got) not in (len(ks) + 1, len(ks) + 2) or ''.join(got[len(ks):]):
            bad.append((g, True, None, None, 'exit %s, %d answers to %d segments, at the end %r' % (r.rc, len(got) - 1, len(ks), r.text[-300:])))
        for k, o in zip(ks, got):
            if o not in want[k]:
                r1 = vt.run(cmd(g, False), show(cases[k]), timeout=20)
                bad.append((g, True, k, sorted(want[k])[:4], '%r in a session, %r alone' % (o, r1.text)))
                break
        for k in ks[:alone]:
            r1 = vt.run(cmd(g, False), show(cases[k]), timeout=20)
            if r1.rc != 0 or r1.text not in want[k]:
                bad.append((g, False, k, sorted(want[k])[:4], '%r (exit %s) alone, without -z' % (r1.text, r1.rc)))
                break
        return bad, len(ks)
    n = 0
    for bad, cnt in vt.pmap(one, sorted(groups)):
        if not bad:
            chk.traces += cnt
        for g, z, k, w, o in bad:
            n += 1
            if n <= limit:
                m = models[g[0] - 1]
                chk.violation('%s %s: input %r: the specification allows %r, the program wrote %s' % (label, ' '.join(cmd(g, z)[1:]), show(cases[k]) if k is not None else None, w, o),
                              {'cmd': cmd(g, z), 'input': show(cases[k]) if k is not None else None, 'expected': w, 'observed': o, 'tagset': tsx(sets[m['ts'] - 1]),
                               'model': {x: m[x] for x in ('open', 'classes', 'A', 'B', 'D')}})
    chk.extra['cases_with_several_allowed_outputs'] = chk.extra.get('cases_with_several_allowed_outputs', 0) + sum(1 for v in want.values() if len(v) > 1)
    k = len(cases) // 2
    chk.sample({'in': show(cases[k]), 'options': opts(cases[k]), 'out': sorted(want[k])})
    return want


# --------------------------------------------------------------------------- material
def sets_basic():
    return [
        tagset([label('DET', 'det.*', closed=True), label('HAVE', ('have', 'vblex.*')), label('VERB', 'vblex.*'), label('NOUN', 'n.*', 'n'), label('ADJ', 'adj', 'adj.*'),
                label('PUNCT', 'sent', closed=True), label('PREP', 'pr', closed=True), label('NY', ('new york', 'np.*'), ('ny', 'np.top'))]),
        tagset([label('N', 'n.*'), label('VF', 'v.*.p3.*'), label('V', 'v.*'), label('A', 'a'), label('PR', 'pr', closed=True), label('D', 'd.*', 'd', closed=True),
                mult('PRD', ['PR', 'D'], closed=True), label('PRN', 'prn.enc', closed=True), label('S', 's', closed=True)],
               prefer=['n.pl', 'v.*.p1'], discard=['v.imp', 'a']),
        tagset([label('N', 'n.*'), label('V', 'v.*'), label('S', 's', closed=True)], prefer=['*.pl', 'v.pres'], discard=['n.sg', 'v.*']),
    ]


VOCAB = [
    [unit('the', 'the<det><def>'), unit('books', 'book<n><pl>', 'book<vblex><pres>'), unit('has', 'have<vblex><pres>', 'have<vblex><past>', 'Have<n>'),
     unit('close', 'close<adj>', 'close<n><sg>', 'close<vblex><inf>', 'close<vblex><imp>'), unit('.', '.<sent>'), unit('in', 'in<pr>', 'in<adj>'),
     unit('New York', 'New York<np><top>'), unit('Zug', unk=True), unit('odd', 'odd<zz>', 'odd<n>'), unit('that', 'that<det><dem>', 'that<pr>', 'that<adj><sint>'),
     unit('take out', 'take<vblex><inf># out', 'take<n># out', 'take<vblex><pres># out'), unit('have to', 'have<vblex><inf># to', 'have<vblex><pres># to', 'have<n><sg># to')],
    [unit('del', 'de<pr>+el<d><m>'), unit('dámelo', 'dar<v><imp>+me<prn><enc>'), unit('x', 'x<n><sg>', 'x<n><pl>', 'x<n><du>'), unit('y', 'y<v><imp>', 'y<v><inf>', 'y<a>'),
     unit('z', 'z<v><pres><p3><sg>', 'z<v><pres><p1>', 'z<v><pres><p2>'), unit('w', 'w<a>', 'w<v><imp>'), unit('de', 'de<pr>', 'de<n><f>'), unit('zz', 'z<v><inf>', 'z<v><pres><ind><p1>', 'z<v><p1><pres>'),
     unit('q', unk=True), unit('.', '.<s>'), unit('dar', 'dar<v><inf>+lo<prn><enc>', 'dar<n><m>+lo<prn><enc>'), unit('a+b', 'a+b<n><m>', 'a+b<a>'), unit('d', 'd<d>', 'd<pr>'),
     unit('takeitout', 'take<v><inf># out+it<prn><enc>'), unit('tio', 'take<v><inf># out+it<prn><enc>', 'take<n><f># o+it<prn><enc>'), unit('dle', 'de<pr># o+el<d><m>')],
    [unit('a', 'a<n><sg>', 'a<v><inf>'), unit('b', 'b<n><sg>', 'b<n><pl>', 'b<v><inf>'), unit('c', 'c<v><inf>', 'c<v><pres>', 'c<n><sg>'), unit('u', unk=True), unit('.', '.<s>'),
     unit('e', 'e<n><sg>', 'e<n><sg><x>'), unit('\\^e', '\\^e<n><pl>'), unit('f', 'f<v><pres>', 'f<v><pres><pl>')],
]
# the sets of coarse tags the models know (others must be looked up as supersets)
CLASSES = [[[9, 10], [8, 9, 10], [9, 10, 11], [7, 13, 11]], [[7, 8, 9, 10], [7, 9], [9, 10], [10, 11]], [[7, 8]]]
BLANKS = ['', ' ', '\n', '[<b>]', ' \\^ ', ', ', '[[t:b:1]]', '\\[', '[a\\]b$]']
PIECES = [' ', '\n', '\\^', '\\$', '\\\\', '\\[', '\\@', 'x', 'ñ', '\U0001F600', ',', '$', '/', '+', '[<i>]', '[\\^\\[]', '[]', '[\\\\]', '[[t:i:2; c\\]]]']
TAILS = ['', ' ', '\n', '[</p>]\n', '\\$', 'x']


def rand_blank(r):
    return r.choice(BLANKS) if r.random() < .7 else ''.join(r.choice(PIECES) for _ in range(r.randint(1, 4)))


def rand_tail(r):
    return r.choice(TAILS) if r.random() < .7 else ''.join(r.choice(PIECES) for _ in range(r.randint(1, 4)))



def unkfree(us):
    """sliding window: an unknown word has no tags; the word after or before it may take any of its own"""
    return us


def exhaustive(sets, models, r, n, frac=1.0):
    cs = []
    for mi, m in enumerate(models):
        voc = VOCAB[m['ts'] - 1]
        for k in range(0, n + 1):
            for us in itertools.product(voc, repeat=k):
                if k < 2 or r.random() < frac:
                    cs.append(case(mi + 1, us))
    return cs


def randoms(models, r, n, hi=9):
    cs = []
    for _ in range(n):
        mi = r.randrange(len(models))
        voc = VOCAB[models[mi]['ts'] - 1]
        us = [dict(r.choice(voc), bl=rand_blank(r)) for _ in range(r.randint(0, hi))]
        f = r.random() < .25 and not any(any('+' in a and '<' in ''.join(a[:a.index('+')]) for a in u['anas']) for u in us)
        cs.append(case(mi + 1, us, f, r.random() < .3, r.random() < .3, rand_tail(r)))
    return cs


# --------------------------------------------------------------------------- random tagsets
def rand_pat(r, al='abc'):
    p = [r.choice(list(al) + ['*']) for _ in range(r.randint(1, 3))]
    return '.'.join(x for i, x in enumerate(p) if i == 0 or (x, p[i - 1]) != ('*', '*'))


def rand_set(r):
    ls = []
    for i in range(r.randint(2, 6)):
        items = [(r.choice(['ha', 'ño']), rand_pat(r)) if r.random() < .25 else rand_pat(r) for _ in range(r.randint(1, 3))]
        ls.append(label('L%d' % i, *dict.fromkeys(items), closed=i > 0 and r.random() < .4))
    return tagset(ls, prefer=[r.choice([rand_pat(r), r.choice('abc') + '.*.' + r.choice('abc')]) for _ in range(r.randint(0, 2))], discard=[rand_pat(r) for _ in range(r.randint(0, 2))])


def rand_unit(r):
    if r.random() < .12:
        return unit(r.choice(['zug', 'Ño']), unk=True)
    n = r.choice([1, 1, 2, 2, 3, 4])
    anas = dict.fromkeys(r.choice(['ha', 'Ha', 'ño', 'xe', 'x y']) + ''.join('<%s>' % r.choice('aaabbcd') for _ in range(r.randint(1, 4)))
                         + (r.choice(['# o', '#u', '# to it']) if r.random() < .15 else '') for _ in range(n))
    return unit(r.choice(['ha', 'Ño', 'xe']), *anas)


def rand_tag_suite(r, nsets, ncases):
    sets, models, voc = [], [], []
    for i in range(nsets):
        s = rand_set(r)
        sets.append(s)
        tags_ = list(range(5, ntags(s)))
        cl = [r.sample(tags_, min(len(tags_), r.randint(2, 4))) for _ in range(r.randint(0, 4))]
        models.append(rand_hmm(r, i + 1, s, cl, spread=r.choice([1, 4]), hole=r.choice([0, .2])) if r.random() < .6 else rand_lsw(r, i + 1, s, cl))
        voc.append([rand_unit(r) for _ in range(8)])
    cs = []
    for _ in range(ncases):
        m = r.randrange(nsets)
        us = [dict(r.choice(voc[m]), bl=rand_blank(r)) for _ in range(r.randint(1, 6))]
        cs.append(case(m + 1, us, r.random() < .25, r.random() < .2, r.random() < .2, rand_tail(r)))
    return sets, models, cs


# --------------------------------------------------------------------------- whole-analysis taggers
def stream_show(us):
    return ''.join(u['bl'] + '^' + ''.join(u['surf']) + ('/*' + ''.join(u['surf']) if u['unk'] else ''.join('/' + ''.join(a) for a in u['anas'])) + '$' for u in us)


def corpus_text(corpus):
    return '\n'.join('^x' + ''.join('/' + ''.join(a) for a in u) + '$' for u in corpus) + '\n'


def unigram_eval(chk, models, cases, timeout=800):
    mp, cp = os.path.join(chk.tmp, 'umodels.ndjson'), os.path.join(chk.tmp, 'ucases.ndjson')
    vt.write_ndjson(mp, models)
    vt.write_ndjson(cp, cases)
    t = vt.tlc('MCUnigram', 'INIT Init\nNEXT Next\nINVARIANTS OwnAnalysis Dump\n', env={'MODELS': mp, 'CASES': cp}, timeout=timeout)
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace[:6000])
    chk.add_tlc(t)
    want = {x['c'] - 1: x['o'] for x in vt.tlc_cases(t)}
    if len(want) != len(cases):
        raise CheckError('TLC evaluated %d of %d cases' % (len(want), len(cases)))
    return want


def unigram_train(tool, kind, corpus, path, tmp):
    cf = path + '.corpus'
    with open(cf, 'w') as fd:
        fd.write(corpus_text(corpus))
    r = vt.run([tool, '-s', '0', '-u', str(kind), path, cf])
    if r.rc != 0:
        raise CheckError('training failed: %s' % r.err[:500])


def unigram_run(chk, label, models, cases, limit=3, alone=2):
    tool = vt.vbuild.build('apertium-tagger')['apertium-tagger']
    want = unigram_eval(chk, models, cases)
    files = [os.path.join(chk.tmp, '%s-%d.u' % (label, i)) for i in range(len(models))]
    for m, f in zip(models, files):
        unigram_train(tool, m['kind'], m['corpus'], f, chk.tmp)
    groups = {}
    for k, c in enumerate(cases):
        groups.setdefault((c['m'], tuple(opts(c))), []).append(k)

    def one(g):
        m, o = g
        ks = groups[g]
        cmd = [tool, '-g', '-u', str(models[m - 1]['kind'])] + list(o) + [files[m - 1]]
        z = cmd[:-1] + ['-z', cmd[-1]]
        text = [stream_show(cases[k]['units']) + cases[k]['tail'] for k in ks]
        outs, st, tail = vt.flush_session(z, text)
        bad = []
        if st != 'ok' or tail.strip('\0'):
            bad.append((z, text[min(len(outs), len(ks) - 1)], None, 'session %s, at the end %r' % (st, tail[:300])))
        for k, x, got in zip(ks, text, outs):
            if got != want[k]:
                bad.append((z, x, want[k], '%r in a session, %r alone' % (got, vt.run(cmd, x, timeout=20).text)))
                break
        for k in ks[:alone]:
            x = stream_show(cases[k]['units']) + cases[k]['tail']
            r1 = vt.run(cmd, x, timeout=20)
            if r1.rc != 0 or r1.text != want[k]:
                bad.append((cmd, x, want[k], '%r (exit %s) alone, without -z' % (r1.text, r1.rc)))
                break
        return m, bad, len(ks)
    n = 0
    for m, bad, cnt in vt.pmap(one, sorted(groups)):
        if not bad:
            chk.traces += cnt
        for cmd, x, w, o in bad:
            n += 1
            if n <= limit:
                chk.violation('%s %s: trained on %r, input %r: the specification writes %r, the program: %s' % (label, ' '.join(cmd[1:]), corpus_text(models[m - 1]['corpus']), x, w, o),
                              {'cmd': cmd, 'input': x, 'expected': w, 'observed': o, 'corpus': corpus_text(models[m - 1]['corpus'])})
    k = len(cases) // 2
    chk.sample({'corpus': corpus_text(models[cases[k]['m'] - 1]['corpus']), 'in': stream_show(cases[k]['units']), 'options': opts(cases[k]), 'out': want[k]})
    return want


ULEM = ['a', 'b', 'Nu', 'x y']      # no letters outside ASCII: see known_findings.json
UTAG = ['<n>', '<v>', '<n><pl>', '<v><p3>']


def rand_ana(r, joins=True):
    parts = []
    for _ in range(r.choice([1, 1, 1, 2, 3]) if joins else 1):
        parts.append(r.choice(ULEM) + r.choice(UTAG) + (r.choice(['# o', '#u']) if r.random() < .12 else ''))
    return '+'.join(parts)


def rand_units(r, n, pool, unk=True, hi=4):
    us = []
    for _ in range(n):
        if unk and r.random() < .1:
            us.append(unit(r.choice(['zug', 'ñ\\/']), unk=True, bl=rand_blank(r)))
        else:
            us.append(unit(r.choice(['s', 'Ts', 'é']), *[r.choice(pool) for _ in range(r.randint(1, hi))], bl=rand_blank(r)))
    return us


def unigram_randoms(r, nm, nc):
    models, pools = [], []
    for _ in range(nm):
        pool = [rand_ana(r) for _ in range(r.randint(3, 9))]
        pools.append(pool)
        sizes = r.choice([[1], [1, 2], [1, 2, 3], [2, 4], [1, 2, 3, 4, 6]])
        models.append({'kind': r.choice([1, 2, 3]), 'corpus': [[sy(r.choice(pool)) for _ in range(r.choice(sizes))] for _ in range(r.choice([0, 1, 2, 3, 5, 8]))]})
    cs = []
    for _ in range(nc):
        m = r.randrange(nm)
        pool = pools[m] + [rand_ana(r) for _ in range(3)]
        cs.append(case(m + 1, rand_units(r, r.randint(0, 5), pool), r.random() < .3, r.random() < .3, r.random() < .3, rand_tail(r)))
    return models, cs


# --------------------------------------------------------------------------- recorded runs of any tagger
def validate_runs(chk, label, sets, recs, timeout=800, limit=3):
    """recs: [{ts, units, tail, o, out, cmd, inp}]; TLC decides which are behaviours of a tagger."""
    if not recs:
        return
    sp, tp = os.path.join(chk.tmp, 'wsets.ndjson'), os.path.join(chk.tmp, 'wtrace.ndjson')
    vt.write_ndjson(sp, [{'labels': [{'pats': l['pats']} for l in s['labels']], 'prefer': s['prefer'], 'discard': s['discard']} for s in sets] or [{}])
    ctl = dict(recs[0], out=recs[0]['out'] + '#')
    strip = lambda r: {k: r[k] for k in ('ts', 'units', 'tail', 'o', 'out')}
    bad = set()
    for a in range(0, len(recs), 4000):
        part = recs[a:a + 4000]
        vt.write_ndjson(tp, [strip(r) for r in part + [ctl]])
        t = vt.tlc('TraceTagger', 'INIT Init\nNEXT Next\nINVARIANTS Accept\n', env={'SETS': sp, 'TRACE': tp}, timeout=timeout)
        ok = {x['c'] - 1 for x in vt.tlc_cases(t)}
        if len(part) in ok:
            raise CheckError('the control record was accepted')
        chk.add_tlc(t, len(ok))
        bad |= {a + i for i in range(len(part)) if i not in ok}
    n = 0
    for i in sorted(bad):
        r = recs[i]
        if 'again' in r and r['again']() != r['out']:
            continue
        n += 1
        if n <= limit:
            chk.violation('%s: the output for %r is no sequence of its units with one of their own analyses each: %r' % (label, r['inp'], r['out']),
                          {'cmd': r['cmd'], 'input': r['inp'], 'observed': r['out'], 'tagset': tsx(sets[r['ts'] - 1]) if r['ts'] else None})


def sessions(chk, label, cmd, ts, cases, limit=3):
    """One run of cmd (with -z) that must answer every text before it gets the next; returns the records."""
    text = [show(c) for c in cases]
    outs, st, tail = vt.flush_session(cmd, text)
    if st != 'ok' or tail.strip('\0'):
        chk.violation('%s: session of %d texts: %s, after the end %r; text %r' % (label, len(text), st, tail[:300], text[min(len(outs), len(text) - 1)]),
                      {'cmd': cmd, 'texts': text[:len(outs) + 1], 'status': st})
    recs = []
    for c, x, o in zip(cases, text, outs):
        recs.append({'ts': ts, 'units': c['units'], 'tail': c['tail'], 'o': c['o'], 'out': o, 'cmd': cmd, 'inp': x})
    return recs


MTX = ('<metatag>%s<feats><feat><out><ex-lemma><ex-wordoid><wrdaddr/></ex-wordoid></ex-lemma></out></feat>'
       '<feat><out-many><ex-tags><ex-wordoid><wrdaddr/></ex-wordoid></ex-tags></out-many></feat>'
       '<feat><out><join><ex-tags><ex-wordoid><adjust><add><wrdaddr/><addr-of-ints><int val="0"/><int val="-1"/></addr-of-ints></add></adjust></ex-wordoid></ex-tags></join></out>'
       '<out><join><ex-tags><ex-wordoid><wrdaddr/></ex-wordoid></ex-tags></join></out></feat></feats></metatag>')


def perceptron_train(chk, name, corpus, mtx=MTX % '', iters=3, flags=()):
    """corpus: list of (unit, index of its right analysis)"""
    tool = vt.vbuild.build('apertium-tagger')['apertium-tagger']
    P = lambda f: os.path.join(chk.tmp, name + '.' + f)
    with open(P('mtx'), 'w') as fd:
        fd.write(mtx)
    with open(P('tagged'), 'w') as fd:
        fd.write('\n'.join(show({'units': [dict(u, bl='', anas=u['anas'][i:i + 1])], 'tail': ''}) for u, i in corpus) + '\n')
    with open(P('untagged'), 'w') as fd:
        fd.write('\n'.join(show({'units': [dict(u, bl='')], 'tail': ''}) for u, i in corpus) + '\n')
    r = vt.run([tool, '-x'] + list(flags) + ['-s', str(iters), P('model'), P('tagged'), P('untagged'), P('mtx')])
    if r.rc != 0 or not os.path.exists(P('model')):
        raise CheckError('perceptron training failed: rc %s %s' % (r.rc, r.err[:1000]))
    return P('model')
