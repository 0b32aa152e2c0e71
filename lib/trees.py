"""The scripts for linguistic data against specs/DataTrees.tla (C31, C32)."""
import os, re, json
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr
import vt

CheckError = vt.CheckError
CFG = ('INIT Init\nNEXT Next\nCONSTANTS Big = %s\nINVARIANTS Again Shrinks Shape Directions Unmarked Written Unrolled Dump\n')
MIXED = ('l', 'r', 'i', 'g', 're', 'ig', 'x')
WORDS = ['casa', 'R&D', 'a<b', 'say "x"', "l'un", 'é', 'ñu', 'x y', '>', '&amp;', 'a']
VARS = ['a', 'b', 'c', 'ab', 'other']


def el(n, a=(), c=()):
    return {'n': n, 'a': [[k, list(v) if isinstance(v, (list, tuple)) else [v]] for k, v in a], 'c': list(c)}


def tx(*t):
    return {'n': '', 't': list(t)}


def write(t, r=None, parent=''):
    """as XML, in one of the many ways of writing it"""
    if t['n'] == '':
        return escape(''.join(t['t']))
    a = list(t['a'])
    if r:
        r.shuffle(a)
    s = '<' + t['n'] + ''.join(' %s=%s' % (k, quoteattr(''.join(v))) for k, v in a)
    if not t['c']:
        return s + (r.choice(['/>', '/>', '></%s>' % t['n'], ' />']) if r else '/>')
    free = r is not None and t['n'] not in MIXED and not any(x['n'] == '' for x in t['c'])
    gap = lambda: r.choice(['', '', '\n', '\n  ', '<!-- v="a" & so on -->', ' ']) if free else ''
    return s + '>' + ''.join(gap() + write(x, r, t['n']) for x in t['c']) + gap() + '</%s>' % t['n']


def plain(t):
    """what is compared: names, attributes, children, texts joined"""
    if t['n'] == '':
        return ''.join(t['t'])
    c = []
    for x in t['c']:
        y = plain(x)
        if isinstance(y, str):
            if not y or (not y.strip() and t['n'] not in MIXED):
                continue
            if c and isinstance(c[-1], str):
                c[-1] += y
                continue
        c.append(y)
    return [t['n'], sorted([k, ''.join(v)] for k, v in t['a']), c]


def read(data):
    def conv(e):
        c = [tx(e.text)] if e.text else []
        for x in e:
            if isinstance(x.tag, str):
                c.append(conv(x))
            if x.tail:
                c.append(tx(x.tail))
        return el(e.tag, list(e.attrib.items()), c)
    return plain(conv(ET.fromstring(data, parser=ET.XMLParser(encoding=None))))


def value(r, sep=' '):
    ns = r.sample(VARS, r.choice([1, 1, 1, 2, 3]))
    out = []
    for n in ns:
        out += ([sep] if out else []) + [n]
    return out


def side(r, n):
    c = []
    for _ in range(r.randint(0, 4)):
        q = r.random()
        if q < .5 and not (c and c[-1]['n'] == ''):
            c.append(tx(r.choice(WORDS + [' ']) if c else r.choice(WORDS)))
        elif q < .75:
            c.append(el('s', [('n', r.choice(['n', 'sg', 'vblex']))]))
        elif q < .9:
            c.append(el(r.choice(['b', 'j', 'a'])))
        elif n != 'g':
            c.append(side(r, 'g'))
    return el(n, (), c)


def entry(r, tool):
    a = []
    rr = r.choice(['', '', 'LR', 'RL'])
    if rr:
        a.append(('r', rr))
    if r.random() < .5:
        a.append(('v', value(r)) if tool == 'gen' or r.random() < .5 else ('v', r.choice(VARS)))
    for k in ('vl', 'vr'):
        if r.random() < .25:
            a.append((k, value(r)))
    for k, not_with in (('slr', 'RL'), ('srl', 'LR')):
        if r.random() < .4 and rr != not_with and tool == 'default':
            a.append((k, r.choice([['1'], ['2'], ['1', ' ', 'D'], ['12', ' ', 'D'], ['D'], ['1', 'D']])))
    for k, v in (('lm', r.choice(WORDS)), ('c', r.choice(WORDS)), ('i', 'yes'), ('w', '1.5'), ('a', 'me')):
        if r.random() < .15:
            a.append((k, v))
    c = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        q = r.random()
        c.append(el('p', (), [side(r, 'l'), side(r, 'r')]) if q < .5 else side(r, r.choice(['i', 'i', 're', 'ig'])) if q < .8 else el('par', [('n', r.choice(WORDS))]))
    return el('e', a, c)


def dictionary(r, tool):
    c = []
    if r.random() < .7:
        c.append(el('alphabet', (), [tx('abcé')] if r.random() < .6 else []))
    if r.random() < .8:
        c.append(el('sdefs', (), [el('sdef', [('n', x)]) for x in r.sample(['n', 'sg', 'vblex'], r.randint(1, 3))]))
    if r.random() < .6:
        c.append(el('pardefs', (), [el('pardef', [('n', r.choice(WORDS))], [entry(r, tool) for _ in range(r.randint(0, 3))]) for _ in range(r.randint(1, 2))]))
    for k in range(r.randint(1, 2)):
        c.append(el('section', [('id', 'm%d' % k), ('type', r.choice(['standard', 'inconditional']))], [entry(r, tool) for _ in range(r.randint(0, 5))]))
    return el('dictionary', (), c)


TAGS = ['rule', 'def-macro', 'choose', 'when', 'call-macro', 'cat-item', 'def-cat', 'e', 'p', 'out', 'chunk']
KEPT = ['with-param', 'param', 'list-item', 'lit', 'lit-tag', 'attr-item', 'def-var']


def anything(r, depth, k, sep):
    n = r.choice(TAGS) if r.random() < .7 else r.choice(KEPT)
    a = []
    if r.random() < .4:
        a.append((k, value(r, sep)))
    if r.random() < .3:
        a.append((r.choice(['n', 'comment']), r.choice(WORDS)))
    if k != 'v' and r.random() < .2:
        a.append(('v', r.choice(VARS)))
    return el(n, a, [anything(r, depth - 1, k, sep) for _ in range(r.randint(0, 3))] if depth else [])


def query(r, tools):
    tool = r.choice(tools)
    q = {'tool': tool, 'k': 'v', 'x': r.choice(VARS), 'xs': r.sample(VARS, r.choice([1, 1, 2])), 'keep': [], 'side': r.choice(['left', 'right'])}
    if tool == 'gen':
        q['k'] = r.choice(['v', 'vl', 'vr'])
    if tool == 'xml':
        q['k'] = r.choice(['v', 'v', 'alt'])
        q['keep'] = r.sample(KEPT + ['choose', 'e'], r.choice([0, 0, 1, 2]))
    return q


def match(r, params=()):
    v = lambda: [r.choice(WORDS)] if not params or r.random() < .4 else r.choice([['{{%s}}' % r.choice(params)], ['x', '{{%s}}' % r.choice(params)], ['{{%s}}' % r.choice(params), '.', '*']])
    a = [(k, v()) for k in ('lemma', 'tags', 'n') if r.random() < .4]
    q = r.random()
    if q < .7:
        return el('match', a, [el('select', [('lemma', v())])] if r.random() < .4 else [])
    return el('or', (), [el('match', [('lemma', v())]) for _ in range(r.randint(1, 3))]) if q < .9 else el('x', (), [tx(*v())])


def metalrx(r, tool):
    c, rules = [], []
    if tool == 'macro':
        defs = [el('def-macro', [('name', 'm%d' % k)], [el('rule', [('weight', '0.%d' % j)], [match(r, ('p1', 'p2', 'p12')) for _ in range(r.randint(1, 3))]) for j in range(r.randint(0, 3))]) for k in range(r.randint(1, 3))]
        if r.random() < .2:
            defs.append(el('def-macro', [('name', 'm0')], [el('rule')]))
        c.append(el('def-macros', (), defs))
        for _ in range(r.randint(0, 5)):
            if r.random() < .6:
                ks = r.sample(['p1', 'p2', 'p12'], r.choice([3, 3, 2, 1]))
                rules.append(el('macro', [('name', 'm%d' % r.randrange(len(defs) if len(defs) < 4 else 3))] + [(k, r.choice(WORDS)) for k in ks]))
                if rules[-1]['a'][0][1][0] not in ['m%d' % k for k in range(len([d for d in defs]))]:
                    rules.pop()
            else:
                rules.append(el('rule', [('weight', '1')], [match(r) for _ in range(r.randint(0, 3))]))
        names = {d['a'][0][1][0] for d in defs}
        rules = [x for x in rules if x['n'] != 'macro' or x['a'][0][1][0] in names]
    else:
        seqs = [el('def-seq', [('n', 's%d' % k)], [match(r) for _ in range(r.randint(0, 2))]) for k in range(r.randint(1, 3))]
        c.append(el('def-seqs', (), seqs))

        def part():
            q = r.random()
            return el('seq', [('n', 's%d' % r.randrange(3))]) if q < .3 else el('or', (), [el('seq', [('n', 's0')]), match(r)]) if q < .4 else match(r)
        for _ in range(r.randint(0, 4)):
            body = [part() for _ in range(r.randint(0, 3))]
            q = r.random()
            if q < .65:
                up = r.choice([0, 1, 2, 3, 4, 11])
                a = [('upto', str(up))]
                if r.random() < .6:
                    a.append(('from', str(r.choice([0, 0, 1, 2, up]))))
                body.insert(r.randint(0, len(body)), el('repeat', a, [part() for _ in range(r.randint(1, 2))]))
            elif q < .75:
                body.insert(r.randint(0, len(body)), el('repeat', [('c', 'x')], [part()]))
            rules.append(el('rule', [('weight', '1'), ('c', r.choice(WORDS))][:r.randint(0, 2)], body))
    c.append(el('rules', (), rules))
    if r.random() < .3:
        c.reverse()
    if r.random() < .2:
        c.insert(0, el('def-macros', (), []) if tool == 'macro' else el('def-seqs'))
        if tool == 'macro':
            c = [x for k, x in enumerate(c) if x['n'] != 'def-macros' or x['c']]
        else:
            c = [x for x in c if x['n'] != 'def-seqs' or x['c']]
    return el('metalrx' if tool != 'macro' or r.random() < .7 else 'lrx', (), c)


class Scripts:
    """the scripts of the working tree, with their style sheets where they look for them"""
    def __init__(self, chk):
        self.src = os.path.join(vt.REPO, 'scripts')
        self.dir = os.path.join(chk.tmp, 'scripts')
        share = os.path.join(self.dir, 'share', 'apertium')
        os.makedirs(share, exist_ok=True)
        for f in os.listdir(self.src):
            p = os.path.join(self.src, f)
            if f.endswith('.xslt'):
                open(os.path.join(share, f), 'wb').write(open(p, 'rb').read())
            elif f.endswith('.in') and f.startswith('apertium'):
                open(os.path.join(self.dir, f[:-3]), 'w').write(open(p).read().replace('@datarootdir@', os.path.join(self.dir, 'share')))
            elif f.startswith('apertium') and not os.path.exists(p + '.in'):
                open(os.path.join(self.dir, f), 'w').write(open(p).read())
        self.tmp = chk.tmp

    def cmd(self, name, *args):
        p = os.path.join(self.dir, name)
        return [('python3' if 'python' in open(p).readline() else 'bash'), p] + list(args)

    def run(self, q, data, k, way=0):
        """the bytes of the result"""
        i, o = os.path.join(self.tmp, 'i%s' % k), os.path.join(self.tmp, 'o%s' % k)
        open(i, 'wb').write(data)
        inp, out = b'', None
        t = q['tool']
        if t == 'gen':
            c = self.cmd('apertium-gen%sdix' % q['k'], q['x'], i)
        elif t == 'rules':
            c = self.cmd('apertium-filter-rules', *(q['xs'] + (['-'] if way else [i])))
            inp = data if way else b''
        elif t == 'xml':
            opt = ([] if q['k'] == 'v' else [['-a', q['k']], ['--attr=' + q['k']]][way]) + sum([[['-k', x], ['--keep', x]][way] for x in q['keep']], [])
            c, out = self.cmd('apertium-filter-xml', *(opt + [','.join(q['xs']), i, o] if not way else [','.join(q['xs']), i, o] + opt)), o
        elif t == 'dix':
            c = self.cmd('apertium-filter-dix', q['x'], q['side'], i)
        else:
            c, out = self.cmd({'default': 'apertium-translate-to-default-equivalent', 'macro': 'apertium-metalrx', 'repeat': 'apertium-metalrx-to-lrx'}[t], i, o), o
        env = dict(os.environ, LC_ALL='C.UTF-8')
        res = vt.run(c, inp, timeout=60, env=env)
        got = res.out
        if out:
            if got:
                return None, 'standard output has %r' % got[:80], c
            got = open(o, 'rb').read() if os.path.exists(o) else b''
        left = [f for f in (i, o, o + '.tmp') if os.path.exists(f)]
        for f in left:
            os.unlink(f)
        if o + '.tmp' in left:
            return None, 'a temporary file stays behind', c
        if res.rc != 0:
            return None, 'exit %s: %s' % (res.rc, res.err[-300:]), c
        return got, None, c


def check(chk, tools, n, big, limit=3):
    r = chk.rng
    sc = Scripts(chk)
    wp, cp = os.path.join(chk.tmp, 'w.ndjson'), os.path.join(chk.tmp, 'c.ndjson')
    qs = []
    base = {'tool': '', 'k': 'v', 'x': 'a', 'xs': ['a'], 'keep': [], 'side': 'left'}
    for q in ([dict(base, tool='gen', k=k, x=x) for k in ('v', 'vl', 'vr') for x in ('a', 'other')] + [dict(base, tool='rules', xs=x) for x in (['a'], ['a', 'b'])]
              + [dict(base, tool='xml', xs=['a', 'c'], k='v'), dict(base, tool='xml', xs=['b'], keep=['pardef']), dict(base, tool='xml', k='vl')]
              + [dict(base, tool='dix', side=s, x=x) for s in ('left', 'right') for x in 'ab'] + [dict(base, tool='default')]):
        if q['tool'] in tools:
            qs.append(q)
    given = []
    for _ in range(n):
        q = query(r, tools)
        t = q['tool']
        if t in ('gen', 'dix', 'default'):
            tree = dictionary(r, t)
        elif t in ('rules', 'xml'):
            sep = ' ' if t == 'rules' else ','
            tree = el('transfer', (), [anything(r, 3, q['k'], sep) for _ in range(r.randint(0, 5))])
        else:
            tree = metalrx(r, t)
        given.append({'q': q, 't': tree})
    vt.write_ndjson(wp, [{'queries': qs}])
    vt.write_ndjson(cp, given)
    t = vt.tlc('MCDataTrees', CFG % ('TRUE' if big else 'FALSE'), env={'WORDS': wp, 'CASES': cp}, timeout=850)
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated + t.trace[-3000:])
    chk.add_tlc(t)
    cs = vt.tlc_cases(t)
    mine = {c['g']: c for c in cs if c['g'] > 0}
    if len(mine) != len(given):
        raise CheckError('TLC evaluated %d of %d trees' % (len(mine), len(given)))
    jobs = [(g['q'], g['t'], mine[i + 1]['o'], 'r%d' % i, r.randrange(2), vt.random.Random(r.random())) for i, g in enumerate(given)]
    # the entries of one request, together in one dictionary
    for i, q in enumerate(qs):
        es = sorted([c for c in cs if c['g'] == 0 and c['q'] == i + 1], key=lambda c: json.dumps(c['t']))
        if not es:
            raise CheckError('no entries for %r' % q)
        chk.extra['entries'] = chk.extra.get('entries', 0) + len(es)

        def join(ts):
            pd = sum([y['c'] for x in ts for y in x['c'] if y['n'] == 'pardefs' for y in y['c']], [])
            se = sum([y['c'] for x in ts for y in x['c'] if y['n'] == 'section'], [])
            return el('dictionary', (), [el('pardefs', (), [el('pardef', [('n', 'x')], pd)]), el('section', [('id', 'main'), ('type', 'standard')], se)])
        jobs.append((q, join([c['t'] for c in es]), join([c['o'] for c in es]), 'e%d' % i, 0, None))
    chk.extra['trees'] = len(given)

    def one(j):
        q, tree, want, k, way, rr = j
        head = '<?xml version="1.0" encoding="UTF-8"?>\n' if rr is None or rr.random() < .8 else ''
        data = (head + write(tree, rr) + '\n').encode()
        got, why, cmd = sc.run(q, data, k, way)
        if why is None:
            try:
                g = read(got)
            except Exception as ex:
                g, why = None, 'no XML: %s: %r' % (ex, got[-200:])
            w = plain(want)
            if g is not None and g != w:
                a, b = json.dumps(g), json.dumps(w)
                m = len(os.path.commonprefix([a, b]))
                why = 'at …%s: %s, specified %s' % (a[max(0, m - 80):m], a[m:m + 120], b[m:m + 120])
        return why and (why, q, data.decode(), cmd)

    bad = 0
    for x in vt.pmap(one, jobs):
        if x is None:
            chk.traces += 1
            continue
        bad += 1
        if bad <= limit:
            chk.violation('%s: %s' % (' '.join(os.path.basename(y) for y in x[3][1:-1]), x[0]), {'query': x[1], 'input': x[2][:20000], 'cmd': x[3]})
    for g in given[-100:]:
        chk.sample('%r %s' % ({k: v for k, v in g['q'].items()}, write(g['t'])[:200]))
    # asked wrongly, the shell scripts say how to ask and fail
    for f in sorted(os.listdir(sc.dir)):
        p = os.path.join(sc.dir, f)
        if os.path.isfile(p) and 'bash' in open(p).readline():
            q = vt.run(sc.cmd(f, 'x'), timeout=20)
            if q.rc == 0 or 'USAGE' not in q.text:
                chk.violation('%s with one argument: exit %s, %r' % (f, q.rc, q.text[:80]), {'cmd': f})
