"""The perceptron tagger (C19): .mtx files as trees, their XML, sentences, runs of the real tools."""
import os, re, struct
import vt
import tagger as T
from xml.sax.saxutils import quoteattr

CheckError = vt.CheckError
L = list

LABELS = [('NOUN', [('', 'n'), ('', 'n.*')]), ('VERB', [('', 'vb.*')]), ('BEE', [('b', 'det')]), ('DET', [('', 'det'), ('', 'det.*')])]
TAGS = ['n', 'vb', 'det', 'sg', 'pl', 'inf']


# --------------------------------------------------------------------------- trees
def I(v): return {'k': 'int', 'v': v}
def n0(k): return {'k': k}
def n1(k, a): return {'k': k, 'a': a}
def n2(k, a, b): return {'k': k, 'a': a, 'b': b}
def S(k, a, s): return {'k': k, 'a': a, 's': L(s)}
def SET(k, a, *s): return {'k': k, 'a': a, 'set': [L(x) for x in s]}
def var(x): return {'k': 'var', 'name': x}
def join(a, sep='.'): return {'k': 'join', 'a': a, 'sep': L(sep)}
def sl(t, a, x, y): return {'k': 'slice', 'a': a, 'from': x, 'to': y, 'ty': t}
def sub(a, i): return {'k': 'subscript', 'a': a, 'i': i}
def each(v, i, b): return {'k': 'foreach', 'as': v, 'in': i, 'body': b}
def mac(m, *args): return {'k': 'macro', 'm': m, 'args': list(args)}


HERE = n0('wrdaddr')
def at(dt, dw=0, adj=True):
    a = n2('addaddr', HERE, n2('ints', I(dt), I(dw)))
    return n1('adjust', a) if adj else a
def word(a=HERE): return n1('wordoid', a)


NAMED_SETS = {'dets': ['det', 'the'], 'both': ['n', 'sg', 'x'], 'cap': ['NOUN', 'DET', 'a']}
NAMED_STRS = {'noun': 'n', 'ess': 's', 'NOUN': 'NOUN'}


def xml(e):
    k = e['k']
    X = xml
    ref = lambda: (lambda s: ' name="%s"' % [n for n, v in NAMED_STRS.items() if v == s][0] if s in NAMED_STRS.values() else ' val=%s' % quoteattr(s))(''.join(e['s']))

    def sref():
        s = [''.join(x) for x in e['set']]
        for n, v in NAMED_SETS.items():
            if s == v:
                return ' name="%s"' % n
        return ' val=%s' % quoteattr(' '.join(s))
    if k == 'int':
        return '<int val="%d"/>' % e['v']
    if k in ('sentlen', 'tokaddr', 'wrdidx', 'wrdaddr'):
        return '<%s/>' % k
    tag = {'surf': 'ex-surf', 'lemma': 'ex-lemma', 'coarse': 'ex-coarse', 'tags': 'ex-tags', 'ambgset': 'ex-ambgset', 'wordoids': 'ex-wordoids', 'wordoid': 'ex-wordoid',
           'ints': 'addr-of-ints', 'addaddr': 'add', 'outstr': 'out', 'outint': 'out', 'outbool': 'out', 'outmany': 'out-many'}.get(k, k)
    if k in ('and', 'or'):
        return '<%s>%s</%s>' % (k, ''.join(map(X, e['es'])), k)
    if k == 'streq':
        return '<streq%s>%s</streq>' % (ref(), X(e['a']))
    if k in ('strin', 'sethasany', 'sethasall'):
        return '<%s%s>%s</%s>' % (k, sref(), X(e['a']), k)
    if k == 'join':
        return '<join%s>%s</join>' % ('' if e['sep'] == ['.'] else ' val=%s' % quoteattr(''.join(e['sep'])), X(e['a']))
    if k == 'slice':
        return '<slice%s%s>%s</slice>' % (' start="%d"' % e['from'] if e['from'] else '', ' end="%d"' % e['to'] if e['to'] else '', X(e['a']))
    if k == 'subscript':
        return '<subscript idx="%d">%s</subscript>' % (e['i'], X(e['a']))
    if k in ('foreach', 'each'):
        return '<for-each as="%s">\n%s%s</for-each>' % (e['as'], X(e['in']), X(e['body']))
    if k == 'var':
        return '<var name="%s"/>' % e['name']
    if k == 'macro':
        return '<macro name="m%d">%s</macro>' % (e['m'], ''.join(map(X, e['args'])))
    return '<%s>%s%s</%s>' % (tag, X(e['a']), X(e['b']) if 'b' in e else '', tag)


def tsx():
    o = '<?xml version="1.0" encoding="UTF-8"?>\n<tagger name="t">\n<tagset>\n'
    for n, its in LABELS:
        o += '<def-label name="%s">%s</def-label>\n' % (n, ''.join('<tags-item %stags="%s"/>' % ('lemma="%s" ' % l if l else '', t) for l, t in its))
    return o + '</tagset>\n</tagger>\n'


def labels():
    return [{'name': L(n), 'pats': [[{'lem': L(l), 'tags': T.tags(t)}] for l, t in its]} for n, its in LABELS]


def mtx(feats, pred=None, macros=(), beam=4):
    """the record for the specification"""
    return {'labels': labels(), 'pred': pred or {'k': 'none'}, 'macros': list(macros), 'feats': feats, 'beam': beam}


def mtx_xml(m):
    o = '<?xml version="1.0" encoding="UTF-8"?>\n<!DOCTYPE metatag>\n<metatag>\n<coarse-tags tag="t.tsx"/>\n'
    if m['beam'] != 4:
        o += '<beam-width val="%d"/>\n' % m['beam']
    o += '<defns>\n'
    for n, v in NAMED_SETS.items():
        o += '<def-set name="%s">%s</def-set>\n' % (n, ''.join('<set-member %s="%s"/>\n' % (('tag', 'str')[i % 2], x) for i, x in enumerate(v)))
    for i, (n, v) in enumerate(NAMED_STRS.items()):
        o += '<def-str name="%s" %s="%s"/>\n' % (n, ('tag', 'str')[i % 2], v)
    for i, d in enumerate(m['macros']):
        o += '<def-macro as="m%d"%s>%s</def-macro>\n' % (i + 1, ' args="%s"' % ' '.join(d['args']) if d['args'] else '', xml(d['body']))
    o += '</defns>\n'
    if m['pred']['k'] != 'none':
        o += '<global-pred>%s</global-pred>\n' % xml(m['pred'])
    return o + '<feats>\n' + ''.join('<feat>%s</feat>\n' % '\n  '.join(map(xml, f)) for f in m['feats']) + '</feats>\n</metatag>\n'


# --------------------------------------------------------------------------- what is not asked
# apertium/perceptron_spec.{h,cc} has known findings (DESIGN.md section 4); trees that run into
# one are not generated.  An <and> or <or> may leave an operand on the stack, which matters
# unless it is the first thing computed; slices and loops go wrong on nothing, <join> on leading
# empty strings, subscripts when negative, the global predicate with macros.
LISTS = {'tags', 'ambgset', 'wordoids', 'foreach'}


def nonempty(e, ms):
    k = e['k']
    if k == 'ambgset':
        return False
    if k == 'join':
        return nonempty(e['a'], ms)
    if k == 'foreach':
        return nonempty(e['in'], ms)
    if k == 'slice':
        return nonempty(e['a'], ms) and not (e['from'] == 0 and e['to'] < 0)
    if k == 'macro':
        return nonempty(ms[e['m'] - 1]['body'], ms)
    return True


def full(e, ms):
    """no element is empty"""
    k = e['k']
    if k == 'foreach':
        return nonempty(e['body'], ms) and full(e['body'], ms)
    if k == 'slice':
        return full(e['a'], ms)
    if k == 'macro':
        return full(ms[e['m'] - 1]['body'], ms)
    return True


def safe(e, ms, junk=False):
    k = e['k']
    if k == 'each':
        return False
    if k in ('and', 'or'):
        es = e['es']
        return (junk or len(es) == 1) and safe(es[0], ms, junk) and all(safe(x, ms) for x in es[1:])
    if k in ('not', 'outbool', 'pred'):
        return safe(e['a'], ms, junk or k != 'not')
    if k == 'macro':
        return all(safe(x, ms) and nonempty(x, ms) and full(x, ms) for x in e['args'])
    if k == 'foreach':
        return safe(e['in'], ms) and safe(e['body'], ms) and nonempty(e['in'], ms) and full(e['in'], ms)
    if not all(safe(e[x], ms) for x in ('a', 'b') if x in e):
        return False
    if k == 'join':
        return full(e['a'], ms)
    if k == 'slice':
        return nonempty(e['a'], ms) and (e['from'] == 0 or e['to'] == 0 or 0 < e['from'] < e['to'])
    if k == 'subscript':
        return e['i'] >= 0 and nonempty(e['a'], ms) and full(e['a'], ms)
    return True


def has(e, *ks):
    r = []
    walk(e, lambda x: r.append(x['k'] in ks and len(x.get('es', '12')) > 1))
    return any(r)


# --------------------------------------------------------------------------- random trees
SLICES = [(0, 0), (0, 1), (0, 2), (0, 9), (0, -1), (0, -2), (1, 0), (1, 2), (1, 3), (2, 5), (5, 9), (-1, 0), (-2, 0), (5, 0)]


class Gen:
    """typed trees: i(nt) b(ool) s(tr) l(ist) w(ord) v (words) a(ddress)"""

    def __init__(self, rng):
        self.r = rng
        self.sigs = []          # (result type, argument types) of the macros
        self.vars = []          # (name, type)
        self.args = []          # of the macro being written
        self.inmacro = False
        self.nv = 0
        self.ms = []

    def new(self):
        self.nv += 1
        return 'v%d' % self.nv

    def call(self, t, d):
        ms = [i for i, s in enumerate(self.sigs) if s[0] == t]
        if self.inmacro or not ms or d < 1:
            return None
        i = self.r.choice(ms)
        saved, self.vars = self.vars, []
        args = [self.g(x, d - 1) for x in self.sigs[i][1]]
        self.vars = saved
        return mac(i + 1, *args)

    def name(self, t):
        c = [n for n, x in self.vars + self.args if x == t]
        return var(self.r.choice(c)) if c else None

    def g(self, t, d, root=False):
        r = self.r
        if not root:
            x = r.random()
            if x < 0.35 and (e := self.name(t)):
                return e
            if x < 0.15 and (e := self.call(t, d)):
                return e
        return getattr(self, 'g_' + t)(d, root)

    def g_i(self, d, root=False):
        r = self.r
        k = r.choice(['int', 'tokaddr', 'tokaddr', 'wrdidx', 'sentlen'] if d <= 0 else ['int', 'tokaddr', 'wrdidx', 'add', 'add', 'add', 'toklen', 'strlen', 'arrlen', 'sentlen'])
        if k == 'int':
            return I(r.choice([-3, -2, -1, 0, 0, 1, 1, 2, 3]))
        if k in ('tokaddr', 'wrdidx', 'sentlen'):
            return n0(k)
        if k == 'add':
            return n2('add', self.g('i', d - 1), I(r.choice([-2, -1, 1, 2]))) if r.random() < .7 else n2('add', self.g('i', d - 1), self.g('i', 0))
        if k == 'toklen':
            return n1('toklen', n0('tokaddr'))
        return n1(k, self.g('s' if k == 'strlen' else 'l', d - 1))

    def g_b(self, d, root=False):
        r = self.r
        k = r.choice(['streq', 'strin', 'sethasany', 'sethasall', 'eq', 'neq', 'lt', 'lte', 'gt', 'gte'] + (['and', 'or', 'not', 'and', 'or', 'not'] if d > 1 else []))
        if k in ('and', 'or'):
            return {'k': k, 'es': [self.g('b', d - 1) for _ in range(r.choice([1, 2, 2, 2, 3]))]}
        if k == 'not':
            return n1('not', self.g('b', d - 1))
        if k == 'streq':
            return S('streq', self.g('s', d - 1), r.choice(['n', 's', 'NOUN', 'a', 'sent', '!UT!', 'VERB', 'the']))
        if k in ('strin', 'sethasany', 'sethasall'):
            s = r.choice(list(NAMED_SETS.values()) + [['n', 'vb'], ['sg', 'NOUN', 'VERB'], ['!TUF!', 'a']])
            return SET(k, self.g('s' if k == 'strin' else 'l', d - 1), *s)
        return n2(k, self.g('i', d - 1), self.g('i', d - 1))

    def g_s(self, d, root=False):
        r = self.r
        k = r.choice(['surf', 'lemma', 'coarse', 'join', 'lemma', 'coarse'] + (['slice', 'subscript'] if d > 0 else []))
        if k == 'surf':
            return n1(k, self.g('i', min(d - 1, 1)))
        if k in ('lemma', 'coarse'):
            return n1(k, self.g('w', d - 1))
        if k == 'join':
            return join(self.g('l', d - 1), r.choice(['.', '-', '+']))
        if k == 'slice':
            return sl('s', self.g('s', d - 1), *r.choice(SLICES))
        return sub(n1('tags', self.g('w', d - 1)), r.choice([0, 1, 2, 7, 0]))

    def g_l(self, d, root=False):
        r = self.r
        k = r.choice(['tags', 'tags', 'ambgset'] + (['foreach'] if d > 1 else []) + (['slice'] if d > 0 and not root else []))
        if k == 'tags':
            return n1('tags', self.g('w', d - 1))
        if k == 'ambgset':
            return n1('ambgset', self.g('i', min(d - 1, 1)))
        if k == 'slice':
            return sl('l', self.g('l', d - 1), *r.choice(SLICES))
        return self.loop('s', d)

    def loop(self, body, d):
        r = self.r
        if r.random() < .5:
            i, vt_ = self.g('l', d - 1), 's'
        else:
            i, vt_ = n1('wordoids', self.g('i', min(d - 1, 1))), 'w'
        v = self.new()
        self.vars.append((v, vt_))
        b = self.g(body, d - 1) if body != 'void' else self.step(d - 1, True)
        self.vars.pop()
        e = each(v, i, b)
        if body == 'void':
            e['k'] = 'each'
        return e

    def g_w(self, d, root=False):
        if d > 0 and not root and self.r.random() < .3:
            return sub(self.g('v', d - 1), self.r.choice([0, 1, 2, 0, 3]))
        return n1('wordoid', self.g('a', d - 1))

    def g_v(self, d, root=False):
        r = self.r
        k = r.choice(['wordoids', 'wordoids'] + (['foreach', 'slice'] if d > 1 and not root else []))
        if k == 'wordoids':
            return n1('wordoids', self.g('i', min(d - 1, 1)))
        if k == 'slice':
            # never empty: a subscript follows
            return sl('v', self.g('v', d - 1), r.choice([0, -1, -2]), 0)
        while True:
            e = self.loop('w', d)
            if e['in']['k'] == 'wordoids':
                return e

    def g_a(self, d, root=False):
        r = self.r
        k = r.choice(['wrdaddr', 'addaddr', 'addaddr', 'ints'] + (['adjust', 'clamp', 'adjust'] if d > 0 else []))
        if k == 'wrdaddr':
            return HERE
        if k == 'addaddr':
            return n2('addaddr', self.g('a', d - 1) if d > 0 and r.random() < .4 else HERE, n2('ints', I(r.choice([-2, -1, 0, 1, 2])), I(r.choice([-2, -1, 0, 0, 1, 2]))))
        if k == 'ints':
            return n2('ints', self.g('i', min(d - 1, 1)), self.g('i', min(d - 1, 0)))
        return n1(k, self.g('a', d - 1))

    def step(self, d, inloop=False):
        r = self.r
        k = r.choice(['outstr', 'outstr', 'outstr', 'outint', 'outbool', 'outmany', 'pred'])
        if inloop and k == 'outmany':
            k = 'outstr'
        if k == 'each':
            return self.loop('void', d)
        if k == 'pred':
            return n1('pred', self.g('b', d))
        t = {'outstr': 's', 'outint': 'i', 'outbool': 'b', 'outmany': 'l'}[k]
        return n1(k, self.g(t, d, root=t in 'ib'))

    def feat(self, d):
        res = []
        for _ in range(self.r.choice([1, 1, 2, 2, 3])):
            while not safe(e := self.step(d), self.ms):
                pass
            res.append(e)
        return res

    def macro(self):
        r = self.r
        for _ in range(200):
            tys = [r.choice('ibslwva') for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
            self.args = [('x%d' % i, t) for i, t in enumerate(tys)]
            self.inmacro = True
            t = r.choice('ibslwv')
            e = self.g(t, 3, root=True)
            used = set()
            walk(e, lambda x: used.add(x['name']) if x['k'] == 'var' else None)
            args, self.args, self.inmacro = self.args, [], False
            if all(n in used for n, _ in args) and safe(e, self.ms) and nonempty(e, self.ms) and full(e, self.ms):
                self.ms.append({'args': [n for n, _ in args], 'body': e})
                self.sigs.append((t, tys))
                return {'args': [n for n, _ in args], 'body': e}
        raise CheckError('no macro')

    def mtx(self, d=3, nf=5, nm=3, beam=4):
        self.sigs, self.ms = [], []
        pred = None
        while self.r.random() < .2 and not (pred and safe(pred, [], True)):
            pred = self.g('b', 2)
        if pred and not safe(pred, [], True):
            pred = None
        for _ in range(nm):
            self.macro()
        return mtx([self.feat(d) for _ in range(nf)], pred, self.ms, beam)


def walk(e, f):
    if isinstance(e, dict):
        if 'k' in e:
            f(e)
        for x in e.values():
            walk(x, f)
    elif isinstance(e, list):
        for x in e:
            walk(x, f)


def bytes_(e):
    """about the code the reader makes of it: loops longer than 255 are not offered"""
    n = [0]
    walk(e, lambda x: n.__setitem__(0, n[0] + {'int': 2, 'foreach': 8, 'each': 8, 'slice': 3, 'subscript': 2, 'streq': 2, 'strin': 2, 'sethasany': 2, 'sethasall': 2,
                                               'join': 2, 'var': 2, 'macro': 2, 'and': 3, 'or': 3}.get(x['k'], 1)))
    return n[0]


# --------------------------------------------------------------------------- text
def ana(s):
    """'a<n>+b<vb><inf>'"""
    ws = []
    for w in s.split('+'):
        m = re.match(r'([^<]*)((?:<[^>]*>)*)$', w)
        ws.append({'lem': L(m.group(1)), 'tags': [L(t) for t in re.findall('<([^>]*)>', m.group(2))]})
    return ws


def unit(surf, *anas, blank=False):
    return {'surf': L(surf), 'ans': [ana(a) for a in anas], 'blank': blank}


def spell(a):
    return '+'.join(''.join(w['lem']) + ''.join('<%s>' % ''.join(t) for t in w['tags']) for w in a)


def show(u, keep=None):
    s = ''.join(u['surf'])
    as_ = [u['ans'][i] for i in keep] if keep is not None else u['ans']
    return '^%s/%s$' % (s, '/'.join(spell(a) for a in as_) if as_ else '*' + s) + ('\n\n' if u['blank'] else ' ')


STOP = unit('.', '.<sent>')
LEX = [('wood', ['wood<n><sg>', 'wood<vb><inf>']), ('a', ['a<det>']), ('b', ['b<det>', 'b<n>', 'b<vb>']), ('saws', ['saw<n><pl>', 'see<vb>', 'saw<vb><sg>']), ('the', ['the<det>', 'the<det><pl>']),
       ('del', ['de<det>+el<n><sg>', 'del<n>']), ('dame', ['dar<vb>+a<n>+me<det>', 'dama<n><sg>']), ('xyz', []), ('q', ['q<foo>', 'q<n><foo>']), ('sees', ['see<vb><sg>', 'sees<n>+s<vb>']), ('n', ['n<n>', 's<sg>'])]


def sentence(rng, n=None, stop=True):
    us = []
    for _ in range(n or rng.choice([1, 2, 2, 3, 3, 4, 5])):
        s, as_ = rng.choice(LEX)
        us.append(unit(s, *as_))
    return us + ([STOP] if stop else [])


def tagging(rng, us):
    return [rng.randrange(len(u['ans'])) if u['ans'] else None for u in us]


UNTAGGED = [{'lem': L('!UNTAGGED!'), 'tags': [L('!UT!')]}]


# --------------------------------------------------------------------------- features
ZERO = ['-ftrivial-auto-var-init=zero', '-flifetime-dse=0']
BUILT = {}
FILES = {}                  # .mtx files written: their trees


def tools(junk):
    """fresh memory is zero; where an operand may be left on the stack, nothing asserts that it is empty"""
    if junk not in BUILT:
        BUILT[junk] = vt.vbuild.build_variant('junk' if junk else 'zero', ['apertium-tagger', 'apertium-perceptron-trace'],
                                              {'perceptron_spec.cc': ZERO + ['-DNDEBUG'] * junk, 'mtx_reader.cc': ['-DNDEBUG'] * junk},
                                              [os.path.join(vt.vbuild.HERE, 'zeronew.cc')])
    return BUILT[junk]


def tool(name, p):
    m = FILES[p]
    return tools(has(m['feats'] + [m['pred']], 'and', 'or'))['apertium-' + name]


def write_mtx(d, name, m):
    t = os.path.join(d, 't.tsx')
    if not os.path.exists(t):
        with open(t + name, 'w') as fd:
            fd.write(tsx())
        os.rename(t + name, t)
    p = os.path.join(d, name + '.mtx')
    with open(p, 'w') as fd:
        fd.write(mtx_xml(m))
    FILES[p] = m
    return p


def spec_features(chk, ms, cases, timeout=800, chunk=6000):
    sp, cp = os.path.join(chk.tmp, 'mtx.ndjson'), os.path.join(chk.tmp, 'pcases.ndjson')
    vt.write_ndjson(sp, ms)
    want = {}
    for a in range(0, len(cases), chunk):
        vt.write_ndjson(cp, [{'sp': c['sp'], 'us': c['us'], 'tg': [u['ans'][i] if i is not None else UNTAGGED for u, i in zip(c['us'], c['tg'])]} for c in cases[a:a + chunk]])
        t = vt.tlc('MCPerceptron', 'INIT Init\nNEXT Next\nINVARIANTS OwnFeat Dump\n', env={'MTX': sp, 'CASES': cp}, timeout=timeout)
        if t.violated:
            raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace[:6000])
        chk.add_tlc(t)
        for x in vt.tlc_cases(t):
            want[a + x['c'] - 1] = sorted(((f['t'], f['a'], f['w']), tuple(sorted((y['f'], parts(y['p'])) for y in f['f']))) for f in x['fs'])
    if len(want) != len(cases):
        raise CheckError('TLC evaluated %d of %d cases' % (len(want), len(cases)))
    return want


def parts(p):
    """what is printed of a feature: nothing and an empty part look the same"""
    return () if list(p) == [''] else tuple(p)


def parse_feats(lines):
    res = []
    for l in lines:
        m = re.match(r'(\d+); (.*): (-?[\d.e+-]+)$', l)
        if not m:
            raise ValueError(l)
        res.append((int(m.group(1)), parts(m.group(2).split(', ')), float(m.group(3))))
    return res


def trace(chk, name, m, group):
    """the features the real tool gives, per case of group: {index: [...]} or an error"""
    p = write_mtx(chk.tmp, name, m)
    P = lambda f: os.path.join(chk.tmp, name + '.' + f)
    with open(P('un'), 'w') as fd:
        fd.write(''.join(''.join(show(u) for u in c['us']) + '\n' for c in group))
    with open(P('tg'), 'w') as fd:
        fd.write(''.join(''.join(show(u, None if i is None else [i]) for u, i in zip(c['us'], c['tg'])) + '\n' for c in group))
    r = vt.run([tool('perceptron-trace', p), 'path', p, P('un'), P('tg')], timeout=60)
    if r.rc != 0:
        return None, 'exit %s %s' % (r.rc, r.err[-400:])
    got = [[] for _ in group]
    cur = None
    try:
        for l in r.text.split('\n'):
            h = re.match(r'Sentence (\d+) of \d+\t\tToken (\d+) of \d+\t\tAnalysis (\d+) of \d+\t\tWordoid (\d+) of \d+$', l)
            if h:
                s, t, a, w = map(int, h.groups())
                cur = []
                got[s].append(((t, a, w), cur))
                first = True
            elif cur is not None and first:
                first = False                     # the word itself
            elif l.startswith('LU:'):
                cur = None
            elif l and cur is not None:
                cur.append(l)
        return [sorted((k, tuple(sorted((f, p_) for f, p_, _ in parse_feats(v)))) for k, v in g) for g in got], None
    except (ValueError, IndexError) as e:
        return None, 'unreadable output: %r' % e


def features_run(chk, label, ms, cases, limit=3):
    """cases: [{sp (from 1), us, tg}]"""
    tools(False), tools(True)
    want = spec_features(chk, ms, cases)
    by = {}
    for i, c in enumerate(cases):
        by.setdefault(c['sp'], []).append(i)
    bad = 0

    def one(sp):
        return sp, trace(chk, '%s%d' % (label, sp), ms[sp - 1], [cases[i] for i in by[sp]])
    nf = 0
    for sp, (got, err) in vt.pmap(one, sorted(by)):
        for j, i in enumerate(by[sp]):
            if bad >= limit:
                return
            if err or got[j] != want[i]:
                g2, e2 = trace(chk, 'again', ms[sp - 1], [cases[i]])
                if e2 is None and g2[0] == want[i]:
                    if err is None:
                        continue
                    if j + 1 < len(by[sp]):
                        continue
                    chk.violation('%s: features: %s' % (label, err), {'mtx': mtx_xml(ms[sp - 1])})
                    bad += 1
                    continue
                d = [(a, b) for a, b in zip(want[i], g2[0]) if a != b][:1] if g2 else e2
                chk.violation('%s: the features of a word in %r are not the specified ones: %s' % (label, ''.join(show(u) for u in cases[i]['us']), str(d)[:900]),
                              {'mtx': mtx_xml(ms[sp - 1]), 'tsx': tsx(), 'units': ''.join(show(u) for u in cases[i]['us']), 'tagging': cases[i]['tg'],
                               'specified': want[i], 'observed': g2[0] if g2 else e2})
                bad += 1
                break
            nf += 1
    chk.traces += nf


# --------------------------------------------------------------------------- models
def run_train(chk, name, p, tg, un, iters, flags=()):
    """-> (model bytes or None, R)"""
    P = lambda f: os.path.join(chk.tmp, name + '.' + f)
    for f, us in (('tagged', tg), ('untagged', un)):
        with open(P(f), 'w') as fd:
            fd.write(''.join(map(show, us)) + '\n')
    if os.path.exists(P('model')):
        os.remove(P('model'))
    r = vt.run([tool('tagger', p), '-x'] + list(flags) + ['-s', str(iters), P('model'), P('tagged'), P('untagged'), p], timeout=60)
    if r.rc == 0 and os.path.exists(P('model')):
        with open(P('model'), 'rb') as fd:
            return fd.read(), r
    return None, r


def prefix(chk, name, p):
    """what stands before the weights in a model made with the .mtx file p"""
    b, r = run_train(chk, name + 'p', p, [STOP], [STOP], 1)
    if b is None:
        return None, 'training on one unambiguous word failed: exit %s %s' % (r.rc, r.err[-300:])
    if b[-2:] != b'\1\0':
        return None, 'training on one unambiguous word gave weights'
    return b[:-2], None


def sint(v):
    n = max(1, (v.bit_length() + 7) // 8)
    return bytes([n]) + v.to_bytes(n, 'big')


def sstr(x):
    x = x.encode()
    return sint(len(x)) + b''.join(map(sint, x))


def weights_bytes(ws):
    """a model's weights, as lttoolbox's Serialiser writes them"""
    o = sint(len(ws))
    for (f, p), v in sorted(ws.items()):
        o += sint(1 + len(p)) + sint(1) + sint(f) + b''.join(map(sstr, p)) + sint(struct.unpack('>Q', struct.pack('>d', float(v)))[0])
    return o


def parse_weights(b):
    pos = 0

    def i():
        nonlocal pos
        n = b[pos]
        if not 1 <= n <= 8 or pos + 1 + n > len(b):
            raise ValueError('byte %d' % pos)
        pos += 1 + n
        return int.from_bytes(b[pos - n:pos], 'big')
    ws = {}
    for _ in range(i()):
        k = [bytes(i() for _ in range(i())) for _ in range(i())]
        ws[k[0][0], tuple(x.decode() for x in k[1:])] = struct.unpack('>d', struct.pack('>Q', i()))[0]
    if pos != len(b):
        raise ValueError('bytes left over')
    return ws


def wrec(ws, scale=1):
    return [{'f': f, 'p': [L(x) for x in p], 'v': int(round(v * scale))} for (f, p), v in sorted(ws.items())]


def written(u, i, flags=()):
    """unit u with analysis i (from 1; 0: none) as -p, -f and -m have it written"""
    s = ''.join(u['surf'])
    p = s + '/' if '-p' in flags else ''
    if not i:
        return '^%s*%s$' % (p, s)
    as_ = [spell(a) for a in u['ans']]
    o = as_[i - 1]
    if '-f' in flags:
        o = '/'.join([o] + [a for a in as_ if a != o])
    return '^%s%s%s$' % ('=' if '-m' in flags and len(as_) != 1 else '', p, o)


def parse_tagged(text, us, flags=()):
    """which analysis was written for every unit"""
    ch, pos = [], 0
    for u in us:
        tail = '\n\n' if u['blank'] else ' '
        m = [(i, o) for i in (range(1, len(u['ans']) + 1) if u['ans'] else [0]) for o in [written(u, i, flags) + tail] if text.startswith(o, pos)]
        if not m:
            return None
        ch.append(m[0][0])
        pos += len(m[0][1])
    return ch if text[pos:] == '' else None


def validate(chk, label, ms, recs, timeout=800, limit=3, describe=None):
    """recs that are no behaviours of the specification: list of numbers"""
    sp, tp = os.path.join(chk.tmp, 'tmtx.ndjson'), os.path.join(chk.tmp, 'ptrace.ndjson')
    vt.write_ndjson(sp, ms)
    vt.write_ndjson(tp, recs)
    t = vt.tlc('TracePerceptron', 'INIT Init\nNEXT Next\nINVARIANTS BeamOK Better Accept\n', env={'MTX': sp, 'TRACE': tp}, timeout=timeout)
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace[:6000])
    chk.add_tlc(t)
    ok = {x['c'] for x in vt.tlc_cases(t)}
    return [i for i in range(len(recs)) if i + 1 not in ok]


def few(rng, n_amb, max_len=4, stop=True):
    """a sentence with at most n_amb ambiguous units"""
    while True:
        us = sentence(rng, rng.choice(range(1, max_len + 1)), stop)
        if sum(len(u['ans']) > 1 for u in us) <= n_amb:
            return us
