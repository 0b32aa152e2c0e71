"""Rule files and inputs for the three transfer stages.

A rule file is one JSON-able dict; it is given to specs/Transfer.tla as it is and
written as XML for the real compiler.  See specs/RuleLang.tla for its meaning.
"""
import json, os
from xml.sax.saxutils import quoteattr
import vt
from vt import CheckError

STAGE = {'t': ('transfer', 'apertium-transfer'), 'i': ('interchunk', 'apertium-interchunk'), 'p': ('postchunk', 'apertium-postchunk')}


# --------------------------------------------------------------------------- XML
def txt(v):
    return ''.join(v)


def tagtxt(v):
    return '.'.join(x[1:-1] for x in v)


def q(s):
    return quoteattr(s)


def xe(e, st):
    op = e['op']
    if op == 'lit':
        return '<lit v=%s/>' % q(txt(e['v']))
    if op == 'littag':
        return '<lit-tag v=%s/>' % q(tagtxt(e['v']))
    if op == 'var':
        return '<var n=%s/>' % q(e['n'])
    if op == 'clip':
        return '<clip pos="%d"%s part=%s%s/>' % (e['pos'], ' side=%s' % q(e['side']) if st == 't' else '', q(e['part']),
                                                (' link-to=%s' % q(e['as']) if e['as'] else '') + (' queue="no"' if e.get('nq') and st == 't' else ''))
    if op == 'b':
        return '<b/>'
    if op == 'casefrom':
        return '<get-case-from pos="%d">%s</get-case-from>' % (e['pos'], xe(e['e'], st))
    if op == 'caseof':
        return '<case-of pos="%d"%s part=%s/>' % (e['pos'], ' side=%s' % q(e['side']) if st == 't' else '', q(e['part']))
    if op == 'concat':
        return '<concat>%s</concat>' % xs(e['es'], st)
    if op == 'lucount':
        return '<lu-count/>'
    if op == 'lu':
        return '<lu>%s</lu>' % xs(e['es'], st)
    if op == 'mlu':
        return '<mlu>%s</mlu>' % ''.join('<lu>%s</lu>' % xs(l, st) for l in e['lus'])
    if op == 'chunk':
        if st == 'i':
            return '<chunk>%s</chunk>' % xs(e['es'], st)
        a = (' namefrom=%s' % q(e['namefrom']) if e['namefrom'] else ' name=%s' % q(txt(e['name'])))
        if e['case']:
            a += ' case=%s' % q(e['case'])
        return '<chunk%s><tags>%s</tags>%s</chunk>' % (a, ''.join('<tag>%s</tag>' % xe(t, st) for t in e['tags']), xs(e['es'], st))
    raise ValueError(op)


def xs(es, st):
    return ''.join(xe(e, st) for e in es)


CONDS = {'equal': 'equal', 'begins': 'begins-with', 'ends': 'ends-with', 'contains': 'contains-substring',
         'in': 'in', 'beginsl': 'begins-with-list', 'endsl': 'ends-with-list'}


def xc(c, st):
    op = c['op']
    if op in ('and', 'or', 'not'):
        return '<%s>%s</%s>' % (op, ''.join(xc(x, st) for x in c['cs']), op)
    n = CONDS[op]
    cl = ' caseless="yes"' if c['cl'] else ''
    if 'list' in c:
        return '<%s%s>%s<list n=%s/></%s>' % (n, cl, xe(c['a'], st), q(c['list']), n)
    return '<%s%s>%s%s</%s>' % (n, cl, xe(c['a'], st), xe(c['b'], st), n)


def xi(i, st):
    op = i['op']
    if op == 'out':
        return '<out>%s</out>' % xs(i['es'], st)
    if op == 'let':
        return '<let>%s%s</let>' % (xe(i['l'], st), xe(i['r'], st))
    if op == 'append':
        return '<append n=%s>%s</append>' % (q(i['n']), xs(i['es'], st))
    if op == 'modcase':
        return '<modify-case>%s%s</modify-case>' % (xe(i['l'], st), xe(i['r'], st))
    if op == 'choose':
        r = ''.join('<when><test>%s</test>%s</when>' % (xc(w['c'], st), xis(w['is'], st)) for w in i['whens'])
        return '<choose>%s%s</choose>' % (r, '<otherwise>%s</otherwise>' % xis(i['other'], st) if i['other'] else '')
    if op == 'macro':
        return '<call-macro n=%s>%s</call-macro>' % (q(i['n']), ''.join('<with-param pos="%d"/>' % p for p in i['ps']))
    if op == 'reject':
        return '<reject-current-rule shifting="%s"/>' % (i.get('txt') or ({0: 'no', 1: 'yes'}.get(i['n'], str(i['n']))))
    raise ValueError(op)


def xis(is_, st):
    return ''.join(xi(i, st) for i in is_)


def to_xml(rs):
    st = rs['stage']
    root = STAGE[st][0]
    o = ['<?xml version="1.0" encoding="UTF-8"?>', '<%s%s>' % (root, ' default="chunk"' if st == 't' and rs['dflt'] == 'chunk' else '')]
    o.append('<section-def-cats>')
    for n, items in rs['cats'].items():
        o.append('<def-cat n=%s>' % q(n))
        for it in items:
            if st == 'p' or (not it['tags'] and not it['anylem']):
                o.append('<cat-item name=%s/>' % q(txt(it['lem'])))
            elif it['anylem']:
                o.append('<cat-item tags=%s/>' % q('.'.join(t if t == '*' else t[1:-1] for t in it['tags'])))
            else:
                o.append('<cat-item lemma=%s tags=%s/>' % (q(txt(it['lem'])), q('.'.join(t if t == '*' else t[1:-1] for t in it['tags']))))
        o.append('</def-cat>')
    o.append('</section-def-cats>')
    o.append('<section-def-attrs>')
    for n, alts in rs['attrs'].items():
        o.append('<def-attr n=%s>%s</def-attr>' % (q(n), ''.join('<attr-item tags=%s/>' % q('.'.join(x[1:-1].replace('.', '\\.') for x in a)) for a in alts)))
    o.append('</section-def-attrs>')
    o.append('<section-def-vars>%s</section-def-vars>' % ''.join(
        '<def-var n=%s%s/>' % (q(n), ' v=%s' % q(txt(v)) if v else '') for n, v in rs['vars'].items()))
    if rs['lists']:
        o.append('<section-def-lists>%s</section-def-lists>' % ''.join(
            '<def-list n=%s>%s</def-list>' % (q(n), ''.join('<list-item v=%s/>' % q(txt(x)) for x in l)) for n, l in rs['lists'].items()))
    if rs['macros']:
        o.append('<section-def-macros>%s</section-def-macros>' % ''.join(
            '<def-macro n=%s npar="%d">%s</def-macro>' % (q(n), m['npar'], xis(m['body'], st)) for n, m in rs['macros'].items()))
    o.append('<section-rules>')
    for r in rs['rules']:
        o.append('<rule><pattern>%s</pattern><action>%s</action></rule>' %
                 (''.join('<pattern-item n=%s/>' % q(c) for c in r['pat']), xis(r['act'], st)))
    o.append('</section-rules></%s>' % root)
    return '\n'.join(o) + '\n'


# --------------------------------------------------------------------------- rendering of inputs
def wbtxt(wb):
    return '[[' + '; '.join(wb) + ']]' if wb else ''


def word_text(st, w):
    if st == 't':
        return wbtxt(w['wb']) + '^' + txt(w['sl']) + ('/' + txt(w['tl']) if w['bi'] else '') + ('/' + txt(w['ref']) if w['ref'] else '') + '$'
    if st == 'i':
        return '^' + txt(w['tl']) + txt(w['q']) + '$'
    i = w['in']
    o = i['blanks'][0]
    for k, x in enumerate(i['words']):
        o += wbtxt(x['wb']) + '^' + txt(x['tl']) + '$' + i['blanks'][k + 1]
    return '^' + txt(w['tl']) + '{' + o + '}$'


def seg_text(st, s):
    o = s['blanks'][0]
    for k, w in enumerate(s['words']):
        o += word_text(st, w) + s['blanks'][k + 1]
    return o


# --------------------------------------------------------------------------- the real stage
class Stage:
    def __init__(self, chk, rs, name):
        self.rs, self.st = rs, rs['stage']
        tools = vt.vbuild.build(STAGE[self.st][1], 'apertium-preprocess-transfer')
        self.xml = os.path.join(chk.tmp, name + '.t%sx' % {'t': 1, 'i': 2, 'p': 3}[self.st])
        self.bin = self.xml + '.bin'
        with open(self.xml, 'w', encoding='utf-8') as fd:
            fd.write(to_xml(rs))
        r = vt.run([tools['apertium-preprocess-transfer'], self.xml, self.bin])
        if r.rc != 0:
            raise CheckError('the rule compiler rejected %s (exit %s): %s' % (self.xml, r.rc, r.err[:2000]))
        self.compile_err = r.err.decode('utf-8', 'replace')
        mode = []
        if self.st == 't':
            mode = ['-b'] if rs.get('bi', True) else ['-n']
        self.cmd = [tools[STAGE[self.st][1]]] + mode + (['-w'] if rs['dictcase'] else []) + [self.xml, self.bin]
        self.zcmd = self.cmd[:1] + ['-z'] + self.cmd[1:]


def expected(chk, rulesets, cases, invs=('LongestMatch', 'Covered', 'BanHolds'), timeout=700, chunk=4000):
    """Evaluate the specification: list of results (one per case) {'i': [...], 'o': [...]}"""
    res = {}
    rp = os.path.join(chk.tmp, 'rules.ndjson')
    vt.write_ndjson(rp, rulesets)
    for a in range(0, len(cases), chunk):
        cp = os.path.join(chk.tmp, 'cases.ndjson')
        part = cases[a:a + chunk]
        vt.write_ndjson(cp, part)
        t = vt.tlc('MCTransfer', 'INIT TInit\nNEXT TNext\nINVARIANTS\n' +
                   ''.join(' %s\n' % i for i in invs) + ' Dump\n', env={'RULES': rp, 'CASES': cp}, timeout=timeout)
        if t.violated:
            raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace[:6000])
        chk.add_tlc(t)
        for c in vt.tlc_cases(t):
            res[a + c['c'] - 1] = c
    if len(res) != len(cases):
        raise CheckError('TLC evaluated %d of %d cases' % (len(res), len(cases)))
    return [res[i] for i in range(len(cases))]


def norm(o):
    return o


def compare(chk, label, stages, cases, exp, limit=3):
    """Run every case (1-based 'rs' index) through the real stage and compare."""
    by = {}
    for c, e in zip(cases, exp):
        by.setdefault(c['rs'], []).append((c, e))

    def one(item):
        ix, lst = item
        st = stages[ix - 1]
        segs = []
        for c, e in lst:
            for s, i, o in zip(c['segs'], e['i'], e['o']):
                t = seg_text(st.st, s)
                if t != i:
                    raise CheckError('rendering differs: %r / %r' % (t, i))
                segs.append((i, o))
        inp = ''.join(i + '\0' for i, _ in segs)
        want = ''.join(o + '\0' for _, o in segs)
        r = vt.run(st.zcmd, inp, timeout=60)
        got = r.text
        if r.rc == 0 and got in (want, want + '\0'):
            return ('ok', len(segs), None)
        # find a failing segment on its own, then a failing history
        for i, o in segs:
            r1 = vt.run(st.cmd, i, timeout=20)
            if r1.rc != 0 or r1.text != o:
                return ('bad', len(segs), (st, i, o, r1.text, r1.rc, st.cmd))
        parts = got.split('\0')
        for n, (i, o) in enumerate(segs):
            if n >= len(parts) or parts[n] != o:
                h = ''.join(x + '\0' for x, _ in segs[:n + 1])
                w = ''.join(x + '\0' for _, x in segs[:n + 1])
                r2 = vt.run(st.zcmd, h, timeout=60)
                # shortest suffix of the history that still fails
                for m in range(max(0, n - 3), n + 1):
                    h2 = ''.join(x + '\0' for x, _ in segs[m:n + 1])
                    w2 = ''.join(x + '\0' for _, x in segs[m:n + 1])
                    r3 = vt.run(st.zcmd, h2, timeout=60)
                    if r3.text not in (w2, w2 + '\0'):
                        h, w, r2 = h2, w2, r3
                return ('bad', len(segs), (st, h, w, r2.text, r2.rc, st.zcmd))
        return ('bad', len(segs), (st, inp, want, got, r.rc, st.zcmd))
    bad = 0
    for kind, n, info in vt.pmap(one, sorted(by.items())):
        if kind == 'ok':
            chk.traces += n
            continue
        st, i, o, g, rc, cmd = info
        bad += 1
        if bad <= limit:
            k = vt.first_diff(o, g)
            chk.violation('%s: input %r: the specification gives %r, the program wrote %r (exit %s), first difference at %d' %
                          (label, i[-1500:], o[-1500:], g[-1500:], rc, k),
                          {'cmd': cmd, 'rules': to_xml(st.rs), 'input': i[-200000:], 'expected': o[-200000:], 'observed': g[-200000:], 'rc': rc})
    return bad


def run_all(chk, label, rulesets, cases, **kw):
    stages = vt.pmap(lambda x: Stage(chk, x[1], 'r%d' % x[0]), list(enumerate(rulesets)))
    exp = expected(chk, rulesets, cases, **kw)
    bad = compare(chk, label, stages, cases, exp)
    for c, e in list(zip(cases, exp))[:2]:
        chk.sample({'rules': to_xml(rulesets[c['rs'] - 1])[:800], 'in': e['i'], 'out': e['o']})
    return stages, exp, bad


# --------------------------------------------------------------------------- random generation
LETTERS = 'abcxyzé'
LEMS = ['a', 'b', 'ab', 'Ab', 'AB', 'aB', 'A', 'xyz', 'Xyz', 'XYZ', 'élan', 'Élan', 'ÉLAN', 'ba', 'aba', 'take out', 'a1', '1a', 'ž', 'Ж', 'x-y']
QUEUES = ['', '', '', '# up', '# in it', '#_q']
TAGS = ['<n>', '<adj>', '<det>', '<sg>', '<pl>', '<m>', '<f>', '<acr>', '<p1>']


def sy(s):
    """string -> symbols (characters, escapes, tags)"""
    o, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            o.append(s[i:i + 2]); i += 2
        elif s[i] == '<':
            k = s.index('>', i)
            o.append(s[i:k + 1]); i = k + 1
        else:
            o.append(s[i]); i += 1
    return o


class Gen:
    """Random rule files and inputs.  Knobs in kw."""

    def __init__(self, r, stage, **kw):
        self.r, self.st = r, stage
        self.kw = dict(reject=0.0, wb=0.3, dictcase=0.1, rich=0.5, macros=True, maxpat=5, nrules=(1, 6), lu_default=0.5, bi=1.0)
        self.kw.update(kw)

    # ---- rule file
    def ruleset(self):
        r, st = self.r, self.st
        self.vl, self.vt, self.vc = ['vl1', 'vl2'], ['vt1', 'vt2'], ['vc1']
        rs = {'stage': st, 'dflt': 'lu' if r.random() < self.kw['lu_default'] else 'chunk', 'dictcase': r.random() < self.kw['dictcase'],
              'bi': st != 't' or r.random() < self.kw['bi']}
        cats = {}
        seen = set()
        for k in range(r.randint(2, 5)):
            its = []
            for _ in range(r.choice([1, 1, 2, 3])):
                it = self.cat_item()
                key = ('*' if it['anylem'] else ''.join(it['lem']), tuple(it['tags']))
                if self.kw['reject'] and key in seen:
                    continue          # see the known finding of C08
                seen.add(key)
                its.append(it)
            if its:
                cats['c%d' % k] = its
        rs['cats'] = cats
        rs['attrs'] = {
            'a_pos': [['<n>'], ['<adj>'], ['<det>', '<p1>'], ['<det>']],
            'a_num': r.choice([[['<sg>'], ['<pl>']], [['<sg>'], ['<sg>', '<m>'], ['<pl>']]]),
            'a_gen': r.choice([[['<m>'], ['<f>']], [['<f>'], ['<m>', '<acr>']]]),
            'a_mix': [[r.choice(TAGS) for _ in range(r.randint(1, 3))] for _ in range(r.randint(1, 4))]}
        self.attrs = list(rs['attrs'])
        rs['vars'] = {'vl1': sy(r.choice(['', 'a', 'Def'])), 'vl2': [], 'vt1': sy(r.choice(['', '<sg>'])), 'vt2': [], 'vc1': sy(r.choice(['', 'aa', 'Aa', 'AA']))}
        rs['lists'] = {'l1': [sy(r.choice(LEMS)) for _ in range(r.randint(1, 4))], 'l2': [sy(x) for x in r.sample(TAGS, 3)] + [sy('<n><sg>')]}
        rs['macros'] = {}
        self.rs = rs
        self.in_macro = True
        if self.kw['macros']:
            for k in range(r.choice([0, 1, 2])):
                np = r.choice([1, 1, 2] + ([0] if st == 't' else []))
                self.npos = np
                rs['macros']['m%d' % k] = {'npar': np, 'body': self.instrs(r.randint(1, 3), 1)}
        self.in_macro = False
        rs['rules'] = []
        for k in range(r.randint(*self.kw['nrules'])):
            n = 1 if st == 'p' else min(self.kw['maxpat'], r.choice([1, 1, 1, 2, 2, 2, 3, 3, 4, 5]))
            self.npos = n if st != 'p' else r.choice([1, 2, 3])
            act = self.instrs(r.randint(0, 3), 2)
            act.append(self.out_instr())
            if r.random() < 0.25:
                act += self.instrs(1, 2)
            if r.random() < 0.2:
                act.append(self.out_instr())
            if r.random() < self.kw['reject']:
                act = self.add_reject(act, n)
            rs['rules'].append({'pat': [r.choice(list(cats)) for _ in range(n)], 'act': act})
        return rs

    def add_reject(self, act, n):
        r = self.r
        rej = {'op': 'reject', 'n': r.choice([0, 0, 1] + list(range(1, n + 1)))}
        if r.random() < 0.5:
            act = act[:-1]
        if r.random() < 0.4:
            rej = {'op': 'choose', 'whens': [{'c': self.cond(1), 'is': [rej]}], 'other': []}
        return [rej] + act if r.random() < 0.5 else act + [rej]

    def cat_item(self):
        r = self.r
        if self.st == 'p':
            l = list(r.choice(['np', 'vp', 'n*', '*p', 'np1', 'x*z']))
            return {'anylem': False, 'lem': l, 'tags': []}
        if self.st == 'i' and r.random() < 0.15:
            return {'anylem': False, 'lem': list(r.choice(['np', 'n*', '*p', 'vp', '*', 'xyz'])), 'tags': []}
        tags = r.choice([['<n>'], ['<n>', '*'], ['<adj>', '*'], ['<n>', '<sg>'], ['*', '<sg>'], ['<det>'], ['*'], ['<det>', '*', '<pl>'], ['<n>', '<sg>', '*']])
        x = r.random()
        if x < 0.65:
            return {'anylem': True, 'lem': [], 'tags': tags}
        return {'anylem': False, 'lem': list(r.choice(['a', 'ab', 'a*', '*b', 'x*z', 'xyz', '*', 'take out', 'élan'])), 'tags': tags}

    # ---- expressions
    def pos(self):
        if self.st == 'p':
            return self.r.choice([0] + list(range(1, self.npos + 1)) * 2) if self.npos else 0
        return self.r.randint(1, self.npos)

    def side(self):
        return self.r.choice(['tl', 'tl', 'tl', 'sl', 'ref'] if self.st == 't' else ['tl'])

    def clip(self, parts):
        r = self.r
        e = {'op': 'clip', 'pos': self.pos(), 'side': self.side(), 'part': r.choice(parts), 'as': ''}
        if self.st == 't' and r.random() < 0.06:
            e['as'] = r.choice(['1', '3', 'x'])
        if self.st == 't' and r.random() < 0.12:   # without a dictionary there is no queue: read as any other
            e['nq'] = True
        return e

    def lemval(self, d=1):
        """a value without tags"""
        r = self.r
        x = r.random()
        if self.npos == 0 and self.st != 'p':
            return r.choice([{'op': 'lit', 'v': sy(r.choice(LEMS))}, {'op': 'var', 'n': r.choice(self.vl)}])
        if x < 0.4:
            c = self.clip(['lem', 'lem', 'lemh'] if self.st != 'i' else ['lem'])
            c['as'] = ''
            return c
        if x < 0.55:
            return {'op': 'lit', 'v': sy(r.choice(LEMS))}
        if x < 0.7:
            return {'op': 'var', 'n': r.choice(self.vl)}
        if x < 0.85 and d > 0:
            return {'op': 'casefrom', 'pos': self.pos() if self.st != 'p' else max(1, self.pos()), 'e': self.lemval(d - 1)}
        if d > 0:
            return {'op': 'concat', 'es': [self.lemval(d - 1) for _ in range(r.randint(1, 2))]}
        return {'op': 'lit', 'v': sy(r.choice(LEMS))}

    def tagval(self, d=1):
        r = self.r
        x = r.random()
        if (self.npos == 0 and self.st != 'p') or x < 0.3:
            return r.choice([{'op': 'littag', 'v': [r.choice(TAGS) for _ in range(r.randint(1, 2))]}, {'op': 'var', 'n': r.choice(self.vt)}])
        if x < 0.8:
            return self.clip(self.attrs + ['tags'])
        if d > 0:
            return {'op': 'concat', 'es': [self.tagval(d - 1) for _ in range(r.randint(1, 2))]}
        return {'op': 'lit', 'v': [r.choice(TAGS)]}

    def anyval(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return self.lemval()
        if x < 0.75:
            return self.tagval()
        if self.npos and x < 0.85:
            return self.clip(['whole'])
        if self.npos and self.st == 't' and x < 0.93:
            return self.clip(['lemq'])
        if self.st == 'p' and r.random() < 0.3:
            return {'op': 'lucount'}
        return {'op': 'lit', 'v': []} if r.random() < 0.2 else self.lemval()

    def caseval(self):
        r = self.r
        if self.npos and r.random() < 0.6:
            return {'op': 'caseof', 'pos': max(1, self.pos()), 'side': self.side(), 'part': r.choice(['lem', 'whole'])}
        return r.choice([{'op': 'lit', 'v': sy(r.choice(['aa', 'Aa', 'AA']))}, {'op': 'var', 'n': 'vc1'}])

    def cond(self, d=2):
        r = self.r
        x = r.random()
        if d > 0 and x < 0.15:
            return {'op': 'not', 'cs': [self.cond(d - 1)]}
        if d > 0 and x < 0.4:
            return {'op': r.choice(['and', 'or']), 'cs': [self.cond(d - 1) for _ in range(r.randint(2, 3))]}
        cl = r.random() < 0.4
        if r.random() < 0.3:
            tag = r.random() < 0.4
            return {'op': r.choice(['in', 'beginsl', 'endsl']), 'a': self.tagval() if tag else self.lemval(), 'list': 'l2' if tag else 'l1', 'cl': cl}
        op = r.choice(['equal', 'equal', 'begins', 'ends', 'contains'])
        y = r.random()
        if y < 0.35:
            a, b = self.tagval(), r.choice([{'op': 'littag', 'v': [r.choice(TAGS)]}, self.tagval()])
        elif y < 0.9:
            a, b = self.lemval(), {'op': 'lit', 'v': sy(r.choice(['', 'a', 'b', 'ab', 'AB', 'x', 'xyz', 'Xyz', 'Élan', 'é', 'z']))}
        else:
            a, b = self.caseval(), {'op': 'lit', 'v': sy(r.choice(['aa', 'Aa', 'AA']))}
        if r.random() < 0.1:
            b = {'op': 'lit', 'v': []}
        return {'op': op, 'a': a, 'b': b, 'cl': cl}

    # ---- instructions
    def instrs(self, n, d):
        return [self.instr(d) for _ in range(n)]

    def instr(self, d):
        r = self.r
        x = r.random()
        if x < 0.2:
            v = r.choice(['l', 't', 'c'])
            if v == 'l':
                return {'op': 'let', 'l': {'op': 'var', 'n': r.choice(self.vl)}, 'r': self.lemval()}
            if v == 't':
                return {'op': 'let', 'l': {'op': 'var', 'n': r.choice(self.vt)}, 'r': self.tagval()}
            return {'op': 'let', 'l': {'op': 'var', 'n': 'vc1'}, 'r': self.caseval()}
        if x < 0.42 and (self.npos or self.st == 'p'):
            part = r.choice(['lem', 'lem', 'lemh', 'tags', 'whole'] + self.attrs)
            if self.st == 'i' and part in ('whole', 'lemh'):
                part = 'lem'
            c = {'op': 'clip', 'pos': self.pos(), 'side': self.side(), 'part': part, 'as': ''}
            if self.st == 't' and r.random() < 0.25:
                c['nq'] = True
            if self.st == 'i' and part == 'lem':   # a chunk keeps a name
                return {'op': 'let', 'l': c, 'r': {'op': 'concat', 'es': [{'op': 'lit', 'v': sy(r.choice(LEMS))}] + ([self.lemval()] if r.random() < 0.4 else [])}}
            return {'op': 'let', 'l': c, 'r': self.lemval() if part in ('lem', 'lemh') else (self.tagval() if part != 'whole' else self.anyval())}
        if x < 0.54:
            if r.random() < 0.6:
                return {'op': 'append', 'n': r.choice(self.vl), 'es': [self.lemval() for _ in range(r.randint(1, 2))]}
            return {'op': 'append', 'n': r.choice(self.vt), 'es': [self.tagval() for _ in range(r.randint(1, 2))]}
        if x < 0.64:
            if r.random() < 0.5 and self.npos:
                c = {'op': 'clip', 'pos': self.pos(), 'side': self.side(), 'part': r.choice(['lem', 'lemh'] if self.st != 'i' else ['lem']), 'as': ''}
                return {'op': 'modcase', 'l': c, 'r': self.caseval()}
            return {'op': 'modcase', 'l': {'op': 'var', 'n': r.choice(self.vl)}, 'r': self.caseval()}
        if x < 0.84 and d > 0:
            whens = [{'c': self.cond(), 'is': self.instrs(r.randint(0, 2), d - 1)} for _ in range(r.randint(1, 3))]
            return {'op': 'choose', 'whens': whens, 'other': self.instrs(r.randint(1, 2), d - 1) if r.random() < 0.6 else []}
        if x < 0.94 and self.rs['macros'] and not self.in_macro:
            n = r.choice(list(self.rs['macros']))
            np = self.rs['macros'][n]['npar']
            if np and not self.npos:
                return self.out_instr()
            return {'op': 'macro', 'n': n, 'ps': [max(1, self.pos()) for _ in range(np)]}
        return self.out_instr()

    def lu(self):
        r = self.r
        x = r.random()
        if x < 0.2 and self.npos:
            return {'op': 'lu', 'es': [self.clip(['whole'])]}
        if x < 0.3:
            return {'op': 'lu', 'es': [self.tagval()]} if r.random() < 0.3 else {'op': 'lu', 'es': [{'op': 'var', 'n': r.choice(self.vl + self.vt)}]}
        es = [self.lemval()] + [self.tagval() for _ in range(r.randint(0, 2))]
        if self.npos and self.st == 't' and r.random() < 0.15:
            es.append(self.clip(['lemq']))
        return {'op': 'lu', 'es': es}

    def mlu(self):
        r = self.r
        lus = []
        for _ in range(r.randint(1, 3)):
            l = self.lu()['es']
            if r.random() < 0.15:
                l = [{'op': 'lit', 'v': sy('# up')}]
            if r.random() < 0.15:
                l = [{'op': 'var', 'n': r.choice(self.vl)}]
            lus.append(l)
        return {'op': 'mlu', 'lus': lus}

    def luish(self):
        return self.mlu() if self.r.random() < 0.25 else self.lu()

    def seq(self):
        r = self.r
        es = []
        for k in range(r.randint(1, 3)):
            if k and r.random() < 0.7:
                es.append({'op': 'b'})
            es.append(self.luish())
        if r.random() < 0.08:
            es.append({'op': 'b'})
        return es

    def chunk(self):
        r = self.r
        if self.st == 'i':
            es = []
            x = r.random()
            if x < 0.35:
                es = [self.clip(['whole'])]
            else:
                es = [self.lemval()] + [self.tagval() for _ in range(r.randint(1, 2))] + [self.clip(['chcontent'])]
                if r.random() < 0.2:
                    es[-1:] = [{'op': 'lit', 'v': ['{']}, self.clip(['content']), {'op': 'lit', 'v': ['}']}]
            return {'op': 'chunk', 'es': es}
        c = {'op': 'chunk', 'name': [], 'namefrom': '', 'case': '', 'tags': [self.tagval() for _ in range(r.randint(1, 3))], 'es': self.seq()}
        if r.random() < 0.3:
            c['namefrom'] = r.choice(self.vl)
        else:
            c['name'] = sy(r.choice(['np', 'vp', 'Np', 'X']))
        if r.random() < 0.4:
            c['case'] = 'vc1'
        if r.random() < 0.1:
            c['es'].append({'op': 'var', 'n': 'vl1'})
        return c

    def out_instr(self):
        r = self.r
        if self.st == 'i' or (self.st == 't' and self.rs['dflt'] == 'chunk'):
            if self.st == 'i' and not self.npos:
                return {'op': 'out', 'es': [{'op': 'b'}]}
            es = []
            for k in range(r.choice([1, 1, 1, 2])):
                if k and r.random() < 0.7:
                    es.append({'op': 'b'})
                es.append(self.chunk())
            return {'op': 'out', 'es': es}
        return {'op': 'out', 'es': self.seq()}

    # ---- input
    BLANKS = [' ', ' ', ' ', '', '[<b>]', ' [x] ', '. ', ' \\[y\\] ', '[a\\]b]', ', [1][2] ', '\n', '[\n]', '[{}$ ^/]']

    def wbl(self):
        r = self.r
        if r.random() >= self.kw['wb']:
            return []
        return [r.choice(['t:b:1', 't:i:ab2', 't:s:x\\]y', 't:b:{}', '', 't:\\\\', 'a\\]']) for _ in range(r.choice([1, 1, 2]))]

    def form(self):
        r = self.r
        x = r.random()
        if x < 0.06:
            return sy(r.choice(['*', '@', '#']) + r.choice(LEMS))
        return sy(r.choice(LEMS) + r.choice(QUEUES if r.random() < 0.5 else [''])) + (['\\+'] if r.random() < 0.03 else []) + self.tagseq()

    def tagseq(self):
        r = self.r
        x = r.random()
        if x < 0.1:
            return ['<' + r.choice(['zz', 'n1', 'é', 'm/f']) + '>' for _ in range(2)]
        return r.choice([['<n>'], ['<n>', '<sg>'], ['<adj>', '<m>', '<sg>'], ['<det>', '<pl>'], ['<n>', '<m>', '<pl>'], ['<det>'], ['<n>', '<sg>', '<m>'],
                         [r.choice(TAGS) for _ in range(r.randint(1, 4))]])

    def word(self):
        r = self.r
        if self.st == 't':
            sl = self.form()
            if sl[0] in '*@#':
                tl, ref = list(sl), []
            elif r.random() < 0.07:
                tl, ref = sy('@') + sl, []
            else:
                tl, ref = (self.form() if r.random() < 0.5 else sl), (self.form() if r.random() < 0.15 else [])
            wb = self.wbl()
            if wb == ['']:
                wb = []
            if not self.rs['bi']:
                return {'sl': sl, 'tl': sl, 'ref': [], 'wb': [], 'bi': False}
            return {'sl': sl, 'tl': tl, 'ref': ref, 'wb': wb, 'bi': True}
        name = sy(r.choice(['np', 'Np', 'NP', 'vp', 'np1', 'xyz', 'XaZ', 'default', 'N', 'a', 'ab', 'élan']))
        if r.random() > 0.1:
            name = name + self.tagseq()
        if self.st == 'i':
            ws = self.inner(name)
            return {'sl': [], 'ref': [], 'wb': [], 'bi': True, 'tl': name, 'q': ['{' + word_text('p', {'tl': [], 'in': ws})[2:-2] + '}'] if ws['words'] or ws['blanks'][0] else ['{}']}
        return {'sl': [], 'ref': [], 'wb': [], 'bi': True, 'q': [], 'tl': name, 'in': self.inner(name)}

    def inner(self, name):
        r = self.r
        n = r.choice([0, 1, 1, 1, 2, 2, 3])
        ws = []
        for _ in range(n):
            f = self.form()
            if f[0] in '*@#':
                pass
            elif r.random() < 0.4:
                f = [x for x in f if not x.startswith('<')] + [r.choice(['<1>', '<2>', '<3>', '<9>', '<n>', '<sg>', '<12>']) for _ in range(r.randint(1, 3))]
            wb = self.wbl()
            ws.append({'tl': f, 'wb': [] if wb == [''] else wb})
        bl = [self.inblank(r.random() < 0.15)] + [self.inblank(True) for _ in range(n - 1)] + ([self.inblank(r.random() < 0.15)] if n else [])
        return {'words': ws, 'blanks': bl}

    INBL = [' ', ' ', ' ', '', '[<b>]', ' [x] ', ' \\} ', '[a\\]b]', '[{}$ ^/]', '[1] [2]']
    PIECES = ['[1]', '[2]', ' ', '.', '\\}', '\\{', '\\$', '\\^', '[}$]', '[\\}]', '[{^a$]', '\\\\', '[ ]', 'x', '\\[', '\\]', '\\@', '\n']

    def inblank(self, some):
        if not some:
            return ''
        if self.r.random() < 0.3:
            return ''.join(self.r.choice(self.PIECES) for _ in range(self.r.randint(1, 4)))
        return self.r.choice(self.INBL)

    def blank(self):
        r = self.r
        if r.random() < 0.25:
            return ''.join(r.choice(self.PIECES) for _ in range(r.randint(1, 4)))
        return r.choice(self.BLANKS)

    def seg(self, n=None):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 8]) if n is None else n
        return {'words': [self.word() for _ in range(n)], 'blanks': [self.blank() for _ in range(n + 1)]}


def random_suite(chk, stage, nrs, nseg, **kw):
    rulesets, cases = [], []
    for k in range(nrs):
        g = Gen(chk.rng, stage, **kw)
        rs = g.ruleset()
        rulesets.append(rs)
        m = 4
        for _ in range(nseg // m):
            cases.append({'rs': k + 1, 'segs': [g.seg() for _ in range(m)]})
    return rulesets, cases
