"""Capitalisation rule files: generation, XML, evaluation of specs/MCRestoreCaps.tla, replay."""
import itertools, os
import vt
from xml.sax.saxutils import quoteattr
from xfer import sy

CheckError = vt.CheckError
ATTRS = ['srcsurf', 'srclem', 'trgsurf', 'trglem', 'lemma', 'surface', 'tags']
STAR = {'srcsurf': ['*'], 'srclem': ['*'], 'trgsurf': ['*'], 'trglem': ['*'], 'lemma': ['*'], 'surface': ['*'], 'tags': ['*']}


def match(select='skip', **kw):
    m = {'k': 'match', 'select': select}
    for a in ATTRS:
        v = kw.get(a)
        if v is None:
            m[a] = STAR[a]
        elif a == 'tags':
            m[a] = [x if x in '*+?' else '<%s>' % x for x in v.split('.') if x]
        else:
            m[a] = list(v)
    m['attrs'] = dict((a, kw[a]) for a in ATTRS if kw.get(a) is not None)
    return m


def rule(w, *body):
    return {'w': int(w * 4), 'body': list(body)}


def begin():
    return {'k': 'begin'}


def or_(*ch):
    return {'k': 'or', 'ch': list(ch)}


def repeat(a, b, *ch):
    return {'k': 'repeat', 'from': a, 'upto': b, 'ch': list(ch)}


def node_xml(n, ind):
    p = '  ' * ind
    if n['k'] == 'match':
        at = ''.join(' %s=%s' % (a, quoteattr(v)) for a, v in n['attrs'].items())
        if n['select'] != 'skip':
            at += ' select="%s"' % n['select']
        return '%s<match%s/>\n' % (p, at)
    if n['k'] == 'begin':
        return p + '<begin/>\n'
    at = ' from="%d" upto="%d"' % (n['from'], n['upto']) if n['k'] == 'repeat' else ''
    return '%s<%s%s>\n%s%s</%s>\n' % (p, n['k'], at, ''.join(node_xml(c, ind + 1) for c in n['ch']), p, n['k'])


def to_xml(rules):
    o = '<?xml version="1.0" encoding="UTF-8"?>\n<capitalization>\n<rules>\n'
    for r in rules:
        at = '' if r['w'] == 4 else ' weight="%s"' % (r['w'] / 4 if r['w'] % 4 else r['w'] // 4)
        o += ' <rule%s>\n%s </rule>\n' % (at, ''.join(node_xml(n, 2) for n in r['body']))
    return o + '</rules>\n</capitalization>\n'


def word(form, surf, case=None, wb=(), blank=' ', first=True, more=()):
    items = [{'k': 'text', 't': x, 's': '', 'l': ''} for x in wb]
    c = [{'k': 'case', 't': '', 's': case[:2], 'l': case[3:]}] if case else []
    return {'blank': blank, 'form': sy(form), 'surf': sy(surf), 'more': [sy(x) for x in more], 'wb': c + items if first else items + c}


class Stage:
    def __init__(self, chk, rules, name):
        b = vt.vbuild.build('apertium-compile-caps', 'apertium-restore-caps')
        self.xml = os.path.join(chk.tmp, name + '.crx')
        self.bin = self.xml + '.bin'
        self.text = to_xml(rules)
        with open(self.xml, 'w', encoding='utf-8') as fd:
            fd.write(self.text)
        r = vt.run([b['apertium-compile-caps'], self.xml, self.bin])
        if r.rc != 0:
            raise CheckError('the rule compiler rejected %s: %s' % (self.text, r.err[:1000]))
        self.tool = b['apertium-restore-caps']

    def cmd(self, keep, z):
        return [self.tool] + (['-k'] if keep else []) + (['-z'] if z else []) + [self.bin]


def run_all(chk, label, rulesets, cases, limit=3, timeout=800):
    """rulesets: list of rule lists; cases: {'rs': index (1-based), 'words', 'keep', 'tail'}"""
    rp, cp = os.path.join(chk.tmp, 'rules.ndjson'), os.path.join(chk.tmp, 'cases.ndjson')

    def strip(n):
        n = {k: v for k, v in n.items() if k != 'attrs'}
        if 'ch' in n:
            n['ch'] = [strip(c) for c in n['ch']]
        return n
    vt.write_ndjson(rp, [{'rules': [{'w': r['w'], 'body': [strip(n) for n in r['body']]} for r in rs]} for rs in rulesets])
    want = {}
    for a in range(0, len(cases), 20000):
        vt.write_ndjson(cp, cases[a:a + 20000])
        t = vt.tlc('MCRestoreCaps', 'INIT TInit\nNEXT TNext\nINVARIANTS LettersKept OnlyVoted Dump\n', env={'RULES': rp, 'CASES': cp}, timeout=timeout)
        if t.violated:
            raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace[:6000])
        chk.add_tlc(t)
        for c in vt.tlc_cases(t):
            want.setdefault(a + c['c'] - 1, [c['i'], set()])[1].add(c['o'])
    if len(want) != len(cases):
        raise CheckError('TLC evaluated %d of %d cases' % (len(want), len(cases)))
    stages = vt.pmap(lambda x: Stage(chk, x[1], label + str(x[0])), list(enumerate(rulesets)))
    groups = {}
    for k, c in enumerate(cases):
        groups.setdefault((c['rs'], c['keep']), []).append(k)

    def one(g):
        (rs, keep), ks = g
        st = stages[rs - 1]
        r = vt.run(st.cmd(keep, True), ''.join(want[k][0] + '\0' for k in ks), timeout=60)
        got = r.text.split('\0')
        bad = []
        if r.rc != 0 or len(got) != len(ks) + 1 or got[-1]:
            bad.append((st, keep, None, None, r.text[-500:], r.rc))
        for k, o in zip(ks, got):
            if o not in want[k][1]:
                r1 = vt.run(st.cmd(keep, False), want[k][0], timeout=20)
                bad.append((st, keep, want[k][0], sorted(want[k][1])[:4], '%r in a session, %r alone' % (o, r1.text), r1.rc))
                break
        return bad, len(ks)
    n = 0
    for bad, cnt in vt.pmap(one, sorted(groups.items())):
        if not bad:
            chk.traces += cnt
        for st, keep, i, o, g, rc in bad:
            n += 1
            if n <= limit:
                chk.violation('%s: rules %s\n  input %r: the specification allows %r, the program wrote %s (exit %s)' % (label, st.text, i, o, g, rc),
                              {'cmd': st.cmd(keep, True), 'rules': st.text, 'input': i, 'expected': o, 'observed': g})
    ambiguous = sum(1 for v in want.values() if len(v[1]) > 1)
    chk.extra['cases_with_several_allowed_outputs'] = chk.extra.get('cases_with_several_allowed_outputs', 0) + ambiguous
    k = len(cases) // 2
    chk.sample({'rules': to_xml(rulesets[cases[k]['rs'] - 1])[:600], 'in': want[k][0], 'out': sorted(want[k][1])})


# --------------------------------------------------------------------------- families
def seqs(vocab, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(vocab, repeat=n)


def mk(rs, ws, keep=False, tail=''):
    ws = [dict(w) for w in ws]
    if ws:
        ws[0]['blank'] = '' if len(ws) % 2 else ws[0]['blank']
    return {'rs': rs, 'words': ws, 'keep': keep, 'tail': tail}


CASES9 = ['%s/%s' % (a, b) for a in ('aa', 'Aa', 'AA') for b in ('aa', 'Aa', 'AA')]
FORMS = ['a<n>', 'A<n>', 'Ab<n><sg>', 'AB<np>', 'ab<np><ant>', 'iPhone<np>', 'new York<np><top>', 'New york<n>', 'NY', '*x', '.<sent>', 'ža<n><pl>', 'ÉŽ<n>', 'a\\^<n>', 'a1<x>']
SURFS = ['a', 'A', 'ab', 'Ab', 'AB', 'aB', 'iPhone', 'New York', 'new york', 'NEW YORK', '.', 'ža', 'ŽÉ', 'Éž', 'a\\^', '\\[A\\]', 'AbC', 'A B']


def fam_match():
    """Every attribute of <match> against every word."""
    rs, cs = [], []
    pats = [('srcsurf', v) for v in ('aa', 'Aa', 'AA', '*', 'A*', 'a', 'A')] + [('srclem', v) for v in ('aa', 'Aa', 'AA', '*', 'A*')]
    words = [word(f, 'Xy', c, blank=' ') for c in CASES9 + [None] for f in ('a<n>',)]
    sel = itertools.cycle(['AA', 'aa', 'Aa', 'dix'])
    for a, v in pats:
        rs.append([rule(1, match(next(sel), **{a: v}))])
        cs += [mk(len(rs), [w]) for w in words]
    for a, vs, ws in [('trglem', ('aa', 'Aa', 'AA', '*', 'aA', 'A*', 'Aa a', 'a A', '*a'), [word(f, 'xY') for f in FORMS]),
                      ('lemma', ('ab', 'a', 'A', '*a', 'a*', 'iPhone', 'new York', '*', 'n* *k', 'a^', '.'), [word(f, 'xY') for f in FORMS]),
                      ('trgsurf', ('aa', 'Aa', 'AA', '*', 'aA', 'A*', 'Aa Aa', 'aa aa', 'A A', '*A'), [word('x<n>', s) for s in SURFS]),
                      ('surface', ('ab', 'Ab', '*', 'A*', '*k', 'a^', '[A]', 'New *', '*P*', '.'), [word('x<n>', s) for s in SURFS]),
                      ('tags', ('n', 'n.sg', 'n.*', '*', '+', '?', 'n.?', 'np.+', '*.sg', '*.pl.*', '?.ant', '', 'n.sg.*', '?.?'), [word(f, 'xY') for f in FORMS + ['x<n><sg><pl>', 'x<np><ant><m><sg>', 'x<n><n>']])]:
        for v in vs:
            rs.append([rule(1, match(next(sel), **{a: v}))])
            cs += [mk(len(rs), [w]) for w in ws]
    return rs, cs


def fam_structure(n):
    """Every shape of rule over every short sequence of three words."""
    a, b, c = word('x<a>', 'xy'), word('x<b>', 'Xy'), word('x<c>', 'XY')
    A, B, C, ANY = (lambda s='skip': match(s, tags='a')), (lambda s='skip': match(s, tags='b')), (lambda s='skip': match(s, tags='c')), (lambda s='skip': match(s))
    shapes = [
        [A('AA'), ANY()], [ANY(), A('AA')], [A('AA'), B('Aa')], [A('Aa'), B(), C('aa')], [ANY(), B('aa'), ANY()],
        [begin(), ANY('Aa')], [begin(), A('Aa'), B('AA')], [begin(), B(), A('AA')],
        [or_(A('AA'), B('aa')), C('Aa')], [or_(begin(), C()), A('Aa')], [or_(A('AA'), B('aa'), C('Aa'))], [C('aa'), or_(A(), B('AA'))],
        [or_(repeat(1, 2, A('AA')), C('aa')), B('AA')],
        [repeat(0, 1, A('AA')), B('AA')], [repeat(1, 2, A('AA')), C('Aa')], [repeat(2, 2, A('AA'))], [B(), repeat(1, 3, A('AA'))], [repeat(1, 2, A('AA'), B('aa'))],
        [repeat(0, 2, or_(A('AA'), B('AA'))), C('aa')], [begin(), repeat(0, 2, C()), A('Aa')], [repeat(0, 1, repeat(1, 2, A('AA')), C()), B('aa')],
        [B('aa'), repeat(0, 2, A()), C('Aa')], [repeat(3, 3, ANY('AA'))], [A('dix'), B('AA')]]
    rs, cs = [], []
    for sh in shapes:
        rs.append([rule(1, *sh)])
        cs += [mk(len(rs), s, tail=('.' if k % 3 == 0 else '')) for k, s in enumerate(seqs((a, b, c), 0, n))]
    return rs, cs


def fam_votes():
    """Several rules voting for one word with different weights."""
    a, b = word('x<a>', 'xY z'), word('x<b>', 'XyZ', 'AA/aa')
    rs, cs = [], []
    ws = [1, 2, 0.5, 0.25, 1.5, -1, 0, 10]
    sels = ['AA', 'Aa', 'aa', 'dix']
    for s1, s2 in itertools.product(sels, sels):
        for w1, w2 in [(1, 1), (1, 2), (2, 1), (0.5, 0.25), (-1, 1), (-1, -2), (0, 1), (1.5, 1.5)]:
            rs.append([rule(w1, match(s1, tags='a')), rule(w2, match(s2))])
            cs += [mk(len(rs), s) for s in seqs((a, b), 1, 2)]
    for s in itertools.product(sels, repeat=3):
        for w in [(1, 1, 1.5), (1, 1, 2), (3, 1, 1), (1, 2.5, 1)]:
            rs.append([rule(w[0], match(s[0])), rule(w[1], match(s[1])), rule(w[2], match(s[2]))])
            cs.append(mk(len(rs), [a]))
    # one rule votes for a word more than once: as first and as second word of its span
    for s1, s2 in itertools.product(sels + ['skip'], sels + ['skip']):
        rs.append([rule(1, match(s1), match(s2)), rule(1.5, match('Aa'))])
        cs += [mk(len(rs), s) for s in seqs((a, b), 1, 3)]
    return rs, cs


def fam_blanks():
    """Word-bound blanks, blanks and the end of the text."""
    rs = [[rule(1, match('AA', srcsurf='AA'))], [rule(1, match('Aa', srclem='Aa'), match())]]
    ws = [word('x<a>', 'xy', c, wb, bl, first) for c in (None, 'AA/Aa', 'Aa/aa') for wb in ((), ('t:b:1',), ('t:b:1', 't:i:2'), ('t:b:1', 't:b:1')) for bl in (' ', '', '[<p>]\n', '\\^ ') for first in (True, False)]
    ws += [dict(word('x<a>', 'xy'), wb=[{'k': 'case', 't': '', 's': 'AA', 'l': 'aa'}, {'k': 'text', 't': 't:b:1', 's': '', 'l': ''}, {'k': 'case', 't': '', 's': 'aa', 'l': 'Aa'}, {'k': 'text', 't': 't:i:9', 's': '', 'l': ''}])]
    ws += [word('x<a>', 'xy', 'AA/Aa', wb, more=m) for wb in ((), ('q',)) for m in (('Xz',), ('\\/b', '\\$'), ('xy', 'zZ', 'w v'))]
    few = ws[::5] + ws[-2:]
    cs = []
    for k in (1, 2):
        for keep in (False, True):
            for tail in ('', ' ', '[x]\n', '\\$'):
                cs += [dict(mk(k, [w], keep, tail), words=[w]) for w in ws]
                cs += [dict(mk(k, [w, v], keep, tail), words=[w, v]) for w in few for v in few]
    cs += [dict(mk(1, [], False, t)) for t in ('', ' ', 'a')]
    return rs, cs


def random_suite(r, nrs, per):
    rs, cs = [], []

    def rmatch():
        kw = {}
        if r.random() < .4:
            kw['srcsurf'] = r.choice(['aa', 'Aa', 'AA', 'A*'])
        if r.random() < .2:
            kw['srclem'] = r.choice(['aa', 'Aa', 'AA'])
        x = r.random()
        if x < .2:
            kw['trglem'] = r.choice(['aa', 'Aa', 'AA', '*A'])
        elif x < .4:
            kw['lemma'] = r.choice(['ab', 'a*', '*a', 'iPhone', 'x'])
        x = r.random()
        if x < .15:
            kw['trgsurf'] = r.choice(['aa', 'Aa', 'AA', 'Aa Aa', 'aA'])
        elif x < .3:
            kw['surface'] = r.choice(['ab', 'A*', '*k', 'Ab'])
        if r.random() < .5:
            kw['tags'] = r.choice(['n', 'n.*', '*', 'np.+', '?', 'sent', '*.sg', 'n.sg', '+'])
        return match(r.choice(['skip', 'AA', 'Aa', 'aa', 'dix']), **kw)

    def rnode(d):
        x = r.random()
        if d == 0 or x < .7:
            return rmatch()
        if x < .85:
            return or_(*[rnode(d - 1) for _ in range(r.randint(1, 3))])
        a = r.randint(0, 2)
        return repeat(a, max(1, a + r.randint(0, 2)), *[rnode(d - 1) for _ in range(r.randint(1, 2))])
    for _ in range(nrs):
        rules = []
        for _ in range(r.randint(1, 4)):
            body = ([begin()] if r.random() < .15 else []) + [rnode(2) for _ in range(r.choice([1, 1, 2, 2, 3]))]
            rules.append(rule(r.choice([1, 1, 1, 2, .5, 3, -1, .75]), *body))
        rs.append(rules)
        for _ in range(per):
            ws = []
            for _ in range(r.randint(0, 5)):
                f, s = r.choice(FORMS), r.choice(SURFS)
                ws.append(word(f, s, r.choice(CASES9 + [None, None]), r.choice([(), (), ('t:b:a1',), ('t:b:a1', 't:b:a1', 'q\\]')]), r.choice([' ', ' ', '', ', ', '[x]', '\n']), r.random() < .5,
                               [r.choice(SURFS) for _ in range(r.choice([0, 0, 0, 1, 2]))]))
            cs.append({'rs': len(rs), 'words': ws, 'keep': r.random() < .3, 'tail': r.choice(['', ' ', '.\n'])})
    # keep all cases of one rule file and one mode together
    return rs, cs
