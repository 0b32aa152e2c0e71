"""Systematic (exhaustive) families of rule files and inputs for the transfer stages.

Every family returns (rulesets, cases) in the form specs/Transfer.tla reads.
"""
import itertools
from xfer import sy, txt

ATTRS = {'a_num': [['<sg>'], ['<pl>']], 'a_gen': [['<m>'], ['<f>']]}
VARS = {'v1': [], 'v2': [], 'vc': []}


def base(stage, **kw):
    rs = {'stage': stage, 'dflt': 'lu', 'dictcase': False, 'bi': True, 'cats': {}, 'attrs': dict(ATTRS), 'vars': dict(VARS),
          'lists': {'l1': [sy('a')]}, 'macros': {}, 'rules': []}
    rs.update(kw)
    return rs


def cat(tags, lem=None):
    return {'anylem': lem is None, 'lem': list(lem or ''), 'tags': tags}


def lit(s):
    return {'op': 'lit', 'v': sy(s)}


def clip(pos, part='whole', side='tl', as_=''):
    return {'op': 'clip', 'pos': pos, 'side': side, 'part': part, 'as': as_}


def var(n):
    return {'op': 'var', 'n': n}


B = {'op': 'b'}


def lu(*es):
    return {'op': 'lu', 'es': list(es)}


def out(*es):
    return {'op': 'out', 'es': list(es)}


def chunk(name, *es, tags=()):
    return {'op': 'chunk', 'name': sy(name), 'namefrom': '', 'case': '', 'tags': list(tags) or [lit('<x>')], 'es': list(es)}


def ichunk(*es):
    return {'op': 'chunk', 'es': list(es)}


def let(l, r):
    return {'op': 'let', 'l': l, 'r': r}


def when(c, *is_):
    return {'c': c, 'is': list(is_)}


def choose(whens, *other):
    return {'op': 'choose', 'whens': list(whens), 'other': list(other)}


def cnd(op, a, b, cl=False):
    return {'op': op, 'a': a, 'b': b, 'cl': cl}


def rej(n):
    return {'op': 'reject', 'n': n}


def macro(n, *ps):
    return {'op': 'macro', 'n': n, 'ps': list(ps)}


def tw(sl, tl=None, wb=(), ref=None):
    """word of the transfer stage"""
    return {'sl': sy(sl), 'tl': sy(sl if tl is None else tl), 'ref': sy(ref) if ref else [], 'wb': list(wb), 'bi': True}


def iw(name, content=''):
    return {'sl': [], 'ref': [], 'wb': [], 'bi': True, 'tl': sy(name), 'q': ['{' + content + '}']}


def pw(name, words, blanks=None):
    """chunk of the postchunk stage; words: text or (text, wb)"""
    ws = [{'tl': sy(w if isinstance(w, str) else w[0]), 'wb': [] if isinstance(w, str) else list(w[1])} for w in words]
    if blanks is None:
        blanks = [''] + [' '] * (len(ws) - 1) + ([''] if ws else [])
    return {'sl': [], 'ref': [], 'wb': [], 'bi': True, 'q': [], 'tl': sy(name), 'in': {'words': ws, 'blanks': list(blanks)}}


def seg(words, blanks=None):
    if blanks is None:
        blanks = [''] + [' '] * len(words)
        blanks[-1] = ''
    return {'words': list(words), 'blanks': list(blanks)[:len(words) + 1]}


def group(ix, segs, m=8):
    segs = list(segs)
    return [{'rs': ix, 'segs': segs[i:i + m]} for i in range(0, len(segs), m)]


def suites(*parts):
    """join several (rulesets, cases)"""
    R, C = [], []
    for rs, cs in parts:
        k = len(R)
        R += rs
        C += [dict(c, rs=c['rs'] + k) for c in cs]
    return R, C


# ------------------------------------------------------------------ matching
def matching(stage, maxlen):
    """overlapping patterns over four categories; every sequence of up to maxlen words"""
    if stage == 'i':
        W = [iw('np<n><sg>', '^a<n>$'), iw('np<adj>', ''), iw('vp<v><p1>', '^é<v>$ ^b<x>$'), iw('zz<zz>', '^q$')]
        def o(k, n):
            es = []
            for i in range(n, 0, -1):
                es += [ichunk(lit('R%d' % k), clip(i, 'lem'), clip(i, 'tags'), clip(i, 'chcontent'))]
                if i > 1:
                    es.append(B)
            return [out(*es)]
    else:
        W = [tw('a<n><sg>', 'b<n><sg>'), tw('a<adj>', 'd<adj><mf>'), tw('v<v><p1>', 'w<v><p1>'), tw('*q')]
        def o(k, n):
            es = []
            for i in range(n, 0, -1):
                es += [lu(lit('R%d' % k), clip(i, 'lem'), clip(i, 'tags'))]
                if i > 1:
                    es.append(B)
            return [out(*es)]
    cats = {'n': [cat(['<n>', '*'])], 'adj': [cat(['<adj>'])], 'v': [cat(['<v>', '*'])], 'any': [cat(['<n>', '*']), cat(['<adj>'])],
            'lem': [cat(['<n>', '<sg>'], 'a' if stage == 't' else 'np')]}
    pats = [
        [['n'], ['adj', 'n'], ['n', 'adj', 'v'], ['v', 'v']],
        [['any', 'any'], ['n', 'adj'], ['adj'], ['any', 'v', 'any', 'v']],
        [['lem', 'adj'], ['n', 'adj'], ['n', 'adj', 'adj'], ['lem']],
        [['n', 'v', 'n'], ['v']],
        [['adj', 'adj', 'adj'], ['adj', 'adj'], ['v', 'adj', 'adj', 'adj', 'n']],
    ]
    R, C = [], []
    for j, ps in enumerate(pats):
        rs = base(stage, cats=cats, rules=[{'pat': p, 'act': o(k, len(p))} for k, p in enumerate(ps)])
        R.append(rs)
        segs = []
        for n in range(maxlen + 1):
            for ws in itertools.product(W, repeat=n):
                bl = ['[%d]' % i if (i + j) % 3 else ' ' for i in range(n + 1)]
                segs.append(seg(ws, bl))
        C += group(j + 1, segs, 16)
    return R, C


# ------------------------------------------------------------------ blanks
def blanks(stage, maxn, rich=False):
    """patterns of 1..maxn words, actions writing 0..n+1 blanks in the gaps, every choice of blanks"""
    BL = ['', ' ', '[x]', '. '] + (['[ \\] ]', ' \\$ '] if rich else [])
    R, C = [], []
    BLS = {1: BL, 2: BL, 3: BL, 4: BL[1:3], 5: BL[1:3]}
    for n in range(1, maxn + 1):
        for style in range(5):
            es = []
            for i in range(1, n + 1):
                if i > 1 and style in (1, 2, 3):
                    es.append(B)
                if i > 1 and style == 3:
                    es.append(B)
                if style == 4 and i == n and n > 1:
                    es.append(B)
                if stage == 'i':
                    es.append(ichunk(clip(i, 'lem'), clip(i, 'tags'), clip(i, 'chcontent')))
                else:
                    es.append(lu(clip(i, 'whole')))
            if style == 2:
                es.append(B)
            if style == 0 and n > 1 and stage == 't':
                es = es[:1]
            act = [out(*es)]
            if style == 1 and n > 1:          # in two instructions
                act = [out(*es[:2]), out(*es[2:])]
            if stage == 'p':
                es2 = []
                for e in es:
                    es2.append(e)
                act = [out(*es2)]
            rs = base(stage, cats={'n': [cat(['<n>', '*'])]} if stage != 'p' else {'n': [cat([], 'np')]},
                      rules=[{'pat': ['n'] * (n if stage != 'p' else 1), 'act': act}])
            R.append(rs)
            segs = []
            if stage == 'p':
                for k in range(0, n + 2):
                    if n < 3 and k > 2:
                        continue
                    for bl in itertools.product(BL + ['[x][y]'] if k < 2 else BL if k < 3 else (BL[:1] + BL[2:3] + ['[x] [y]', '[x][y]'] if k < 4 and n == 3 and style in (1, 2) else BLS[4]), repeat=k + 1 if k else 1):
                        segs.append(seg([pw('np<n>', ['w%d<n>' % i for i in range(k)], bl)], ['[s]', ' ']))
            elif stage == 'i':
                for bl in itertools.product(BLS[n], repeat=n + 1):
                    segs.append(seg([iw('w%d<n>' % i, '^c<n>$') for i in range(n)], bl))
            else:
                for bl in itertools.product(BLS[n], repeat=n + 1):
                    segs.append(seg([tw('w%d<n>' % i) for i in range(n)], bl))
            C += group(len(R), segs, 16)
    return R, C


# ------------------------------------------------------------------ rejection
def rejection(stage, maxlen):
    """rejection with every count, alone and conditional, before and after other instructions"""
    if stage == 'i':
        W = [iw('np<n><sg>', '^a<n>$'), iw('np<n><pl>', ''), iw('vp<v><pl>', '^c$')]
        def o(k, n):
            es = []
            for i in range(1, n + 1):
                es += [ichunk(lit('R%d' % k), clip(i, 'lem'), clip(i, 'tags'), clip(i, 'chcontent'))]
                if i < n:
                    es.append(B)
            return out(*es)
        a1 = clip(1, 'a_num')
    else:
        W = [tw('a<n><sg>', 'b<n><sg>'), tw('a<n><pl>', 'c<n><pl>'), tw('v<v><pl>', 'w<v><pl>')]
        def o(k, n):
            es = []
            for i in range(1, n + 1):
                es += [lu(lit('R%d' % k), clip(i, 'lem'), clip(i, 'tags'))]
                if i < n:
                    es.append(B)
            return out(*es)
        a1 = clip(1, 'a_num')
    cats = {'n': [cat(['<n>', '*'])], 'v': [cat(['<v>', '*'])]}
    R, C = [], []
    pl = {'op': 'littag', 'v': ['<pl>']}
    # a rule that gives up at one word must be tried again at the next, however the words between were taken
    for n in (0, 1):
        for long in (2, 3):
            for short in (1, 2):
                if short >= long:
                    continue
                rules = [{'pat': ['n'] * long, 'act': [choose([when(cnd('equal', a1, pl), rej(n))], o(0, long))]},
                         {'pat': ['n'] * short, 'act': [o(1, short)]}]
                R.append(base(stage, cats=cats, rules=rules))
                C += group(len(R), [seg(ws, ['[%d]' % i for i in range(m + 1)]) for m in range(2, maxlen + 3)
                                    for ws in itertools.product(W[:2], repeat=m)], 16)
                rules = rules[:1] + [{'pat': ['n'] * short, 'act': [o(1, short), choose([when(cnd('equal', clip(short, 'a_num'), pl), rej(1))])]}]
                R.append(base(stage, cats=cats, rules=rules))
                C += group(len(R), [seg(ws, ['[%d]' % i for i in range(m + 1)]) for m in range(2, maxlen + 3)
                                    for ws in itertools.product(W[:2], repeat=m)], 16)
    for n in (0, 1, 2, 3):
        for style in range(4):
            for plen in (1, 2, 3):
                if n > plen:
                    continue
                if style == 3 and n != 0:
                    continue
                if style == 0:
                    act = [rej(n)]
                elif style == 1:
                    act = [choose([when(cnd('equal', a1, pl), rej(n))], o(0, plen))]
                elif style == 2:
                    act = [let(var('v1'), lit('z')), choose([when(cnd('equal', a1, pl), rej(n))]), o(0, plen)]
                else:
                    act = [rej(0), o(0, plen)]
                pat0 = (['n', 'n', 'v'] if style % 2 else ['n', 'v', 'n'])[:plen]
                rules = [{'pat': pat0, 'act': act},
                         {'pat': ['n'], 'act': [let(var('v2'), lit('y')), choose([when(cnd('equal', clip(1, 'a_num'), pl), rej(0))], o(1, 1))]} if plen != 1 else
                         {'pat': ['n', 'v'], 'act': [o(1, 2)]},
                         {'pat': ['v'], 'act': [o(2, 1)]},
                         {'pat': ['v', 'n'], 'act': [choose([when(cnd('equal', clip(2, 'a_num'), pl), rej(1))]), o(3, 2)]}]
                rules = [x for i, x in enumerate(rules) if x['pat'] not in [y['pat'] for y in rules[:i]]]
                R.append(base(stage, cats=cats, rules=rules))
                segs = []
                for m in range(1, maxlen + 1):
                    for ws in itertools.product(W, repeat=m):
                        segs.append(seg(ws, ['[%d]' % i for i in range(m + 1)]))
                C += group(len(R), segs, 16)
    return R, C


# ------------------------------------------------------------------ word-bound blanks
def wblanks(maxn):
    """actions that combine words in every way the propagation rules distinguish"""
    acts1 = [
        [out(lu(clip(1, 'whole')))],
        [out(lu(clip(1, 'lem'), lit('<t>')))],
        [out(lu(lit('x<n>')))],
        [out(lu(clip(1, 'whole')), B, lu(lit('y<n>')))],
        [let(var('v1'), clip(1, 'lem')), out(lu(var('v1'), lit('<t>')))],
        [out({'op': 'mlu', 'lus': [[clip(1, 'lem'), clip(1, 'tags')], [lit('z<n>')]]})],
        [macro('m1', 1)],
    ]
    acts2 = [
        [out(lu(clip(2, 'whole')), B, lu(clip(1, 'whole')))],
        [out(lu(clip(1, 'lem'), clip(2, 'lem'), clip(1, 'tags')))],
        [out(lu(clip(2, 'lem'), clip(1, 'tags')), B, lu(clip(1, 'lemh'), clip(2, 'tags')))],
        [out(lu(clip(1, 'tags'), lit('k')))],
        [out(lu(clip(2, 'a_num')))],
        [let(var('v1'), clip(2, 'lem')), out(lu(var('v1'), clip(1, 'tags')), B, lu(clip(1, 'lem')))],
        [let(var('v1'), clip(1, 'lem')), {'op': 'append', 'n': 'v1', 'es': [clip(2, 'lem')]}, out(lu(var('v1')), lu(var('v1')))],
        [let(var('v1'), clip(1, 'lem')), let(var('v1'), lit('q')), out(lu(var('v1')))],
        [let(var('v1'), clip(1, 'lem')), let(var('v2'), var('v1')), out(lu(var('v2')), lu(clip(2, 'whole')))],
        [out({'op': 'mlu', 'lus': [[clip(1, 'whole')], [clip(2, 'whole')]]})],
        [out({'op': 'mlu', 'lus': [[clip(2, 'lem')], [lit('z')]]}), out(lu(clip(1, 'whole')))],
        [out(lu(clip(1, 'lem', 'sl')), B, lu(clip(2, 'lem', 'ref'), lit('x')))],
        [out(lu({'op': 'casefrom', 'pos': 1, 'e': clip(2, 'lem')}))],
        [out(lu({'op': 'concat', 'es': [clip(1, 'lem'), clip(2, 'lem')]}))],
        [macro('m1', 1), macro('m1', 2)],
        [macro('m2', 2, 1)],
        [out(lu(lit('n<n>')), B, lu(clip(2, 'whole')))],
        [let(clip(1, 'lem'), clip(2, 'lem')), out(lu(clip(1, 'whole')))],
        [out(lu(clip(1, 'lem', as_='')), lu(clip(2, 'whole', as_='4')))],
        [choose([when(cnd('equal', clip(1, 'lem'), clip(2, 'lem')), out(lu(clip(1, 'whole'))))], out(lu(clip(2, 'whole'))))],
    ]
    acts3 = [
        [out(lu(clip(3, 'whole')), B, lu(clip(1, 'lem'), clip(2, 'lem'), clip(3, 'tags')))],
        [let(var('v1'), clip(1, 'lem')), let(var('v2'), clip(3, 'lem')), out(lu(var('v2'), var('v1')), B, lu(clip(2, 'whole')))],
        [macro('m2', 3, 1), out(B, lu(clip(2, 'whole')))],
    ]
    macros = {'m1': {'npar': 1, 'body': [out(lu(clip(1, 'lem'), lit('<mac>')))]},
              'm2': {'npar': 2, 'body': [let(var('v1'), clip(1, 'lem')), out(lu(clip(2, 'lem'), var('v1'), lit('<mac>')))]}}
    WB = {1: [(), ('t:b:1',), ('t:b:1', 't:i:2'), ('t:s:{\\]}',), ('q\\\\',), ('q\\]',)],
          2: [(), ('t:b:1',), ('t:i:2', 't:b:1'), ('q\\\\',), ('q\\]',)], 3: [(), ('t:b:1',)]}
    R, C = [], []
    for n, acts in ((1, acts1), (2, acts2), (3, acts3)):
        if n > maxn:
            continue
        for dflt in ('lu', 'chunk'):
            for a in acts:
                if dflt == 'chunk':
                    a2, ms = to_chunk(a), {k: {'npar': m['npar'], 'body': to_chunk(m['body'])} for k, m in macros.items()}
                else:
                    a2, ms = a, macros
                R.append(base('t', dflt=dflt, cats={'n': [cat(['<n>', '*'])]}, macros=ms,
                              rules=[{'pat': ['n'] * n, 'act': a2}, {'pat': ['n'], 'act': to_chunk([out(lu(clip(1, 'whole')))]) if dflt == 'chunk' else [out(lu(clip(1, 'whole')))]}]
                              if n > 1 else [{'pat': ['n'], 'act': a2}]))
                segs = []
                for wbs in itertools.product(WB[n], repeat=n):
                    ws = [tw('Ab%d<n><sg>' % i, 'xy%d<n><sg>' % i, wb, ref='r%d<n>' % i) for i, wb in enumerate(wbs)]
                    segs.append(seg(ws, ['[0]'] + [' '] * (n - 1) + ['[z]']))
                    segs.append(seg(ws + [tw('*u', None, ('t:u:9',))], ['', '[1]', '', ' ', ' '][:n + 2]))
                C += group(len(R), segs, 12)
    return R, C


def to_chunk(act):
    o = []
    for i in act:
        if i['op'] == 'out':
            o.append(out(chunk('ch', *i['es'])))
        elif i['op'] == 'choose':
            o.append({'op': 'choose', 'whens': [{'c': w['c'], 'is': to_chunk(w['is'])} for w in i['whens']], 'other': to_chunk(i['other'])})
        else:
            o.append(i)
    return o


# ------------------------------------------------------------------ rule language
def conditions(stage, alphabet, maxlen):
    """every comparison of every pair of short texts"""
    S = [''.join(x) for n in range(maxlen + 1) for x in itertools.product(alphabet, repeat=n)]
    R, C = [], []
    ops = [(op, cl) for op in ('equal', 'begins', 'ends', 'contains', 'in', 'beginsl', 'endsl') for cl in (False, True)]
    lists = {'l1': [sy(x) for x in S[1:] if x == x[::-1]][:4], 'l2': [sy(x) for x in S if len(x) == 2 and x[0] != x[1]][:3]}
    for half in (ops[:7], ops[7:]):
        act = []
        for op, cl in half:
            if op in ('in', 'beginsl', 'endsl'):
                for l in ('l1', 'l2'):
                    act.append(choose([when({'op': op, 'a': clip(1, 'lem'), 'list': l, 'cl': cl}, {'op': 'append', 'n': 'v1', 'es': [lit('T')]})],
                                      {'op': 'append', 'n': 'v1', 'es': [lit('F')]}))
            else:
                b = clip(1, 'lem', 'ref') if stage == 't' else clip(2, 'lem')
                act.append(choose([when(cnd(op, clip(1, 'lem'), b, cl), {'op': 'append', 'n': 'v1', 'es': [lit('T')]})],
                                  {'op': 'append', 'n': 'v1', 'es': [lit('F')]}))
        res = [let(var('v1'), lit('r'))] + act
        if stage == 't':
            res.append(out(lu(var('v1'))))
            cats = {'n': [cat(['<n>'])]}
            pat = ['n']
        elif stage == 'i':
            res.append(out(ichunk(var('v1'), lit('<o>'), lit('{}'))))
            cats = {'n': [cat(['<n>'])]}
            pat = ['n', 'n']
        else:
            res.append(out(lu(var('v1'))))
            cats = {'n': [cat([], 'np')]}
            pat = ['n']
        R.append(base(stage, cats=cats, lists=lists, rules=[{'pat': pat, 'act': res}]))
        segs = []
        for a in S:
            for b in S:
                if stage == 't':
                    segs.append(seg([tw('w<n>', a + '<n>', ref=b + '<n>')]))
                elif stage == 'i':
                    if a and b:
                        segs.append(seg([iw(a + '<n>'), iw(b + '<n>')]))
                else:
                    segs.append(seg([pw('np', [a + '<n>', b + '<n>'])]))
        C += group(len(R), segs, 32)
    # the boolean operators: truth tables of two and three operands
    T, F = cnd('equal', lit('a'), lit('a')), cnd('equal', lit('a'), lit('b'))
    act = [let(var('v1'), lit('r'))]
    for n in (1, 2, 3):
        for vals in itertools.product((T, F), repeat=n):
            cs = [{'op': 'not', 'cs': [v]} for v in vals] if n == 1 else [{'op': o, 'cs': list(vals)} for o in ('and', 'or')]
            cs += [{'op': 'not', 'cs': [c]} for c in cs]
            if n == 2:
                cs.append({'op': 'and', 'cs': [{'op': 'or', 'cs': list(vals)}, {'op': 'not', 'cs': [vals[0]]}]})
            for c in cs:
                act.append(choose([when(c, {'op': 'append', 'n': 'v1', 'es': [lit('T')]})], {'op': 'append', 'n': 'v1', 'es': [lit('F')]}))
    # first true branch wins, later branches and otherwise are skipped
    for vals in itertools.product((T, F), repeat=3):
        act.append(choose([when(v, {'op': 'append', 'n': 'v1', 'es': [lit(str(i))]}) for i, v in enumerate(vals)],
                          {'op': 'append', 'n': 'v1', 'es': [lit('o')]}))
        act.append(choose([when(v, {'op': 'append', 'n': 'v1', 'es': [lit(str(i))]}) for i, v in enumerate(vals)]))
    if stage == 'i':
        act.append(out(ichunk(var('v1'), lit('<o>{}'))))
    else:
        act.append(out(lu(var('v1'))))
    R.append(base(stage, cats={'n': [cat(['<n>'])]} if stage != 'p' else {'n': [cat([], 'np')]}, rules=[{'pat': ['n'], 'act': act}]))
    C.append({'rs': len(R), 'segs': [seg([tw('w<n>') if stage == 't' else iw('w<n>') if stage == 'i' else pw('np', [])])]})
    return R, C


def casing(stage, alphabet, maxlen):
    """copying of case from every short text to every short text, in each of its forms"""
    S = [''.join(x) for n in range(1, maxlen + 1) for x in itertools.product(alphabet, repeat=n)]
    R, C = [], []
    two = {'t': (clip(1, 'lem', 'sl'), clip(1, 'lem'), 1), 'i': (clip(1, 'lem'), clip(2, 'lem'), 1), 'p': (clip(1, 'lem'), clip(2, 'lem'), 1)}[stage]
    side = 'sl' if stage == 't' else 'tl'
    caseof = {'op': 'caseof', 'pos': 1, 'side': side, 'part': 'lem'}
    forms = [
        [let(var('v1'), {'op': 'casefrom', 'pos': 1, 'e': two[1]})],
        [let(var('v1'), two[1]), {'op': 'modcase', 'l': var('v1'), 'r': caseof}],
        [let(var('v1'), caseof), {'op': 'append', 'n': 'v1', 'es': [{'op': 'caseof', 'pos': 1 if stage == 't' else 2, 'side': 'tl', 'part': 'lem'}]}],
        [{'op': 'modcase', 'l': two[1], 'r': caseof}, let(var('v1'), two[1])],
        [let(var('v1'), {'op': 'casefrom', 'pos': 1, 'e': {'op': 'concat', 'es': [two[1], lit('<Sg>')]}})],
        [let(var('v1'), {'op': 'casefrom', 'pos': 1, 'e': {'op': 'concat', 'es': [two[1], lit('<Sg># oUt'), two[1]]}})],
        [let(var('v1'), {'op': 'casefrom', 'pos': 1, 'e': {'op': 'concat', 'es': [lit('<Sg># Out<Pl>'), two[1]]}})],
    ]
    for f in forms:
        for dc in (False, True):
            act = f + ([out(ichunk(var('v1'), lit('<o>{}')))] if stage == 'i' else [out(lu(var('v1')))])
            R.append(base(stage, dictcase=dc, cats={'n': [cat(['<n>'])]} if stage != 'p' else {'n': [cat([], 'np')]},
                          rules=[{'pat': ['n', 'n'] if stage == 'i' else ['n'], 'act': act}]))
            segs = []
            for a in S:
                for b in S:
                    if stage == 't':
                        segs.append(seg([tw(a + '<n>', b + '<n>')]))
                    elif stage == 'i':
                        segs.append(seg([iw(a + '<n>'), iw(b + '<n>')]))
                    else:
                        segs.append(seg([pw('np', [a + '<n>', b + '<n>'])]))
            C += group(len(R), segs, 32)
    return R, C


DOTTED = [['<f.m>'], ['<f.m>', '<sg>'], ['<sg>', '<f.m>'], ['<f>', '<m>'], ['<f>', '<m.x>', '<sg>', '<pl>'], ['<f.m>', '<sg>', '<f.m>', '<sg>']]


def parts(stage, tags, maxtags, thorough=False):
    """every part of every short word: reading it, replacing it, clearing it"""
    lems = ['a', 'Ab', 'a# q', 'a#_q', 'a b', 'a#b', '1\\+', '\\{a', 'a\\}\\{', '']
    R, C = [], []
    ps = ['lem', 'tags', 'whole', 'a_num', 'a_gen', 'a_long', 'a_dot'] + (['lemh', 'lemq'] if stage != 'i' else [])
    attrs = {'a_num': [['<sg>'], ['<pl>']], 'a_gen': [['<m>'], ['<m>', '<sg>'], ['<f>']], 'a_long': [['<sg>', '<pl>'], ['<sg>', '<pl>', '<m>'], ['<pl>']],
             'a_dot': [['<f.m>', '<sg>'], ['<f.m>'], ['<f>', '<m.x>', '<sg>', '<pl>']]}
    acts = [[p for p in ps]]
    def read(p, clear):
        return clip(1, p)
    acts = []
    es = []
    for p in ps:
        es += [lit('|'), clip(1, p)]
    if stage == 'i':
        es += [lit('|'), clip(1, 'chcontent'), lit('|'), clip(1, 'content')]
    acts.append([let(var('v1'), lit('r')), {'op': 'append', 'n': 'v1', 'es': es}])
    for p in ps:
        if stage == 'i' and p in ('lem', 'whole'):
            continue
        for v in ([], sy('<X>') if p not in ('lem', 'lemh', 'lemq') else sy('Zz')):
            if p == 'lemq' and v == []:
                continue
            acts.append([let(clip(1, p), {'op': 'lit', 'v': v}), let(var('v1'), clip(1, 'whole'))])
            if stage == 't':   # without a dictionary there is no queue
                acts.append([let(dict(clip(1, p), nq=True), {'op': 'lit', 'v': v}), let(var('v1'), clip(1, 'whole'))])
                acts.append([let(dict(clip(1, p, 'sl'), nq=True), {'op': 'lit', 'v': v}), let(var('v1'), clip(1, 'whole', 'sl'))])
    for a in acts:
        o = [out(ichunk(lit('W'), var('v1')))] if stage == 'i' else [out(lu(var('v1')))]
        if stage == 'i' and a is not acts[0]:
            a = [a[0]]
            o = [out(ichunk(clip(1, 'whole')))]
        elif stage == 'i':
            o = [out(ichunk(var('v1'), lit('{}')))]
        R.append(base(stage, attrs=attrs, cats={'n': [cat(['<k>', '*']), cat(['<k>'])]} if stage != 'p' else {'n': [cat([], 'np')]},
                      rules=[{'pat': ['n'], 'act': a + o}]))
        segs = []
        for l in lems:
            for n in range(0, maxtags + 2):
                for ts in itertools.product(tags, repeat=n) if n <= maxtags else DOTTED:
                    t = ''.join(ts)
                    if n == maxtags and l not in ('a', 'a# q') and not thorough:
                        continue
                    if stage == 't':
                        segs.append(seg([tw(l + '<k>' + t if l and n < maxtags else 'w<k>', l + t)])) if l + t else None
                    elif stage == 'i':
                        if l and '#' not in l and '+' not in l:   # (escaped braces stay in)
                            segs.append(seg([iw(l + '<k>' + t, '^c<1>$')]))
                    elif l + t:
                        segs.append(seg([pw('np', [l + t])]))
        C += group(len(R), segs, 32)
    return R, C


def categories(stage):
    """every category made of one short pattern against every short word"""
    lems = ['a', 'ab', 'A', 'b', 'aab'] if stage != 'p' else ['a', 'ab', 'aab', 'b']
    R, C = [], []
    tps = [['<n>'], ['*'], ['<n>', '*'], ['*', '<n>'], ['<n>', '<m>'], ['<n>', '*', '<m>'], ['<m>', '<n>', '*']]
    lps = [None, 'a', 'a*', '*b', '*', 'a*b', 'ab']
    items = [cat(t, l) for t in tps for l in lps] if stage != 'p' else [cat([], l) for l in ('a', 'a*', '*b', '*', 'a*b', 'ab')]
    words = []
    for l in lems:
        for n in range(0, 4):
            for ts in itertools.product(['<n>', '<m>'], repeat=n):
                words.append(l + ''.join(ts))
    for k in range(0, len(items), 1):
        it = items[k]
        it2 = items[(k * 5 + 3) % len(items)]
        for pair in ([it], [it, it2]):
            if stage == 'p' and pair[0]['lem'] == pair[-1]['lem'] and len(pair) == 2:
                continue
            if stage == 't':
                rules = [{'pat': ['c'], 'act': [out(lu(lit('HIT')))]}]
                ws = [tw(w) for w in words if len(w) > 0]
            elif stage == 'i':
                rules = [{'pat': ['c'], 'act': [out(ichunk(lit('HIT<x>{}')))]}]
                ws = [iw(w) for w in words]
            else:
                rules = [{'pat': ['c'], 'act': [out(lu(lit('HIT')))]}]
                ws = [pw(w, ['q<n>']) for w in words]
            R.append(base(stage, cats={'c': pair}, rules=rules))
            C += group(len(R), [seg(ws[i:i + 10]) for i in range(0, len(ws), 10)], 8)
    return R, C


def references(maxw):
    """chunks whose words refer to the tags of the chunk by number, and the case of their name"""
    R = [base('p', cats={'zz': [cat([], 'zz')]}, rules=[{'pat': ['zz'], 'act': [out(lu(lit('Z')))]}], dictcase=d) for d in (False, True)]
    R += [base('p', cats={'np': [cat([], 'np')]}, rules=[{'pat': ['np'], 'act': [
        choose([when(cnd('equal', {'op': 'lucount'}, lit(str(n))), out({'op': 'lu', 'es': [clip(i, 'whole')]} if i else lu(clip(0, 'whole')), *([B] if i < n else [])))
                for n in (n0,)]) for n0 in (0, 1, 2, 3) for i in range(0, n0 + 1)]}]) for _ in (0,)]
    names = ['np', 'Np', 'NP', 'N', 'nP', '1p', 'Éa', 'ÉA', 'NP1']
    tagsets = ['', '<n>', '<n><sg>', '<n><Sg><p3><m>']
    words = ['a<1>', 'Bc<n><2>', 'd<2><1>', '<3>', 'é<9>', 'f\\<1>', '\\^h<n><1>', ('Jk<1>', ('t:b:1', 'q\\]')), '1x<12><1>', ('\\$l<1>', ('r\\\\',)), '#_q<0>', '*unk', 'G']
    segs = []
    for nm in names:
        for tg in tagsets:
            for n in range(0, maxw + 1):
                for ws in itertools.product(words if n < 2 else words[:7], repeat=n):
                    segs.append(seg([pw(nm + tg, ws, [''] + ['[k]'] * (n - 1) + [''] if n else None)]))
    C = []
    for k in range(len(R)):
        C += group(k + 1, segs if k != 2 else [s for s in segs if txt(s['words'][0]['tl'])[:2].lower() == 'np'], 32)
    return R, C
