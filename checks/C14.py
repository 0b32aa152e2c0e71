"""C14 documents survive deformatting and reformatting; C15 uses the same machinery."""
from vt import *
import gen, fmt

NOOPT = {'n': False, 'i': False, 'o': False, 'h': False}
BIG, FILE, END = '@BIG@', '@FILE@', '@END@'
BIGTEXT = '\t' * 9000
COMMON = ['a', ' ', '\n', '.', 'é', '[', '@', BIG]
FRAGS = {
    'txt': ['\n\n', '\r\n\r\n', ']', '\\', '~', '<', '\U0001F600'],
    'html': ['<p>', '</title>', '<b x="@">', '<script>', '</script>', '<!--', '-->', '{{', '}}', '<', '&eacute;', '&zz;', '$', '&amp;'],
    'html-noent': ['<P>', '</h1>', '<style>', '</style>', '<br/>', '{{', '}}', '&eacute;', '^', '<'],
    'html-alt': ['<a ', '<img alt="', '"', '>', '</a>', '<p>', "'", '/'],
    'odt': ['<text:p>', '</text:p>', '<math:mi>', '</math:mi>', '&apos;', '&amp;', '<x>', '{'],
    'rtf': ['\\par ', "\\'e9", "\\'zz", '{\\fonttbl', '{', '}', '{\\pict', ';', '\\', "'", '\\rquote ', 'ñ'],
    'wxml': ['<w:p>', '</w:p>', '<w:instrText>', '</w:instrText>', '&apos;', '&gt;', '<w:drawing>', '</w:drawing>'],
    'latex': ['<part/><CONTENTS>', '</CONTENTS>', '<VERB>', '</VERB>', '<cite/><CONTENTS>', '$', '<!--', '-->', '&apos;'],
    'xlsx': ['<si>', '</si>', '<f>', '</f>', '<!x>', '&apos;', '&lt;'],
    'pptx': ['<a:p>', '</a:p>', '<p:timing>', '</p:timing>', '<?x>', '&apos;', '{'],
    'mediawiki': ['==', "'''", '*', '[[', ']]', '[[en:', '{{', '}}', '<title>', '\n', '&lt;', '<id>', '</id>'],
    'xpresstag': ['<v1>', '@x:', '@x=', ']', '<', '>', '*'],
}


def fs(s):
    """fragment -> the specification's characters"""
    return [s] if s == BIG else list(s)


def real(s):
    """joined specification text -> text"""
    return s.replace(BIG, BIGTEXT)


LARGE = re.compile(r'\[@(/[^]]*)\]')


class Tools:
    def __init__(self, chk):
        t = {}
        for x in fmt.load():
            t['apertium-des' + x], t['apertium-re' + x] = None, None
        self.bin = vbuild.build(*sorted(t))
        self.chk = chk

    def des(self, f, opts, text):
        """-> (raw output, output with the contents of large blocks in place of their file names)"""
        q = run([self.bin['apertium-des' + f]] + opts, text)
        if q.rc != 0:
            return None, '@EXIT %s@' % q.rc
        raw = q.text
        files = []

        def sub(m):
            files.append(m[1])
            try:
                c = open(m[1], encoding='utf-8', newline='').read()
            except OSError:
                c = '@no file@'
            return '[@' + FILE + c.replace(BIGTEXT, BIG) + END + ']'
        seen = LARGE.sub(sub, raw) if len(text) > 8000 else raw
        return raw, seen, files

    def re(self, f, text):
        q = run([self.bin['apertium-re' + f]], text)
        return q.text if q.rc == 0 else '@EXIT %s@' % q.rc


def optargs(o):
    return [a for a, k in (('-n', 'n'), ('-i', 'i'), ('-o', 'h')) if o[k]]


def roundtrip(tools, f, opts, text):
    q = tools.des(f, opts, text)
    if q[0] is None:
        return q[1], ''
    back = tools.re(f, q[0])
    for x in q[2]:
        if os.path.exists(x):
            os.unlink(x)
            back += '@file left@'
    return q[1], back


# ---------------------------------------------------------------- random documents
def sample(r, n):
    """a text matched by the regular expression n"""
    k = n['k']
    if k == 'set':
        if n['neg']:
            while True:
                c = r.choice('ab1 xé"=/ñ.@[]\\{}$^<\n')
                if c not in n['s']:
                    return c
        return r.choice(n['s'])
    if k == 'cat':
        return ''.join(sample(r, x) for x in n['a'])
    if k == 'alt':
        return sample(r, r.choice(n['a']))
    if k == 'bol':
        return ''
    if k == 'opt':
        return sample(r, n['r']) if r.random() < .5 else ''
    return ''.join(sample(r, n['r']) for _ in range(r.choice([0, 1, 1, 2, 3]) + (k == 'plus')))


def document(r, f, F, n):
    rules = [x for x in F['init'] if x['act'] in ('tag', 'begin')]
    out = []
    ents = [s for s, _ in F['subst']]
    prefs = [c for c, _ in F['pref']]
    special = FRAGS[f]
    for _ in range(n):
        x = r.random()
        if x < .3 and rules:
            u = r.choice(rules)
            s = sample(r, u['re'])
            if u['act'] == 'begin':
                s += r.choice(['', 'x', ' é@ ', r.choice(special), sample(r, r.choice(rules)['re'])])
                if r.random() < .85:
                    s += sample(r, F['states'][u['push'] - 1][-2]['re'])
            if r.random() < .1:
                s = s[:-1]
            out.append(s)
        elif x < .4 and ents:
            out.append(r.choice(ents))
        elif x < .45 and prefs:
            out.append(r.choice(prefs))
        elif x < .6:
            out.append(r.choice(special))
        elif x < .7:
            out.append(r.choice(COMMON[1:-1]))
        else:
            out.append(gen.word(r))
    return ''.join(out)


def mc(chk, tools, frags, nfrags, allopts, mem='8g', timeout=850):
    """frags: format -> fragments; TLC enumerates, the cases come back for replay"""
    p = os.path.join(chk.tmp, 'frags.json')
    json.dump({f: [fs(x) for x in v] for f, v in frags.items()}, open(p, 'w'), ensure_ascii=False)
    t = tlc('MCDeformat', 'INIT Init\nNEXT Next\nCONSTANTS MaxFrags = %d\n AllOpts = %s\nINVARIANTS RoundTrip Literal Streams Texts Dots Dump\n' %
            (nfrags, 'TRUE' if allopts else 'FALSE'), env={'FORMATS': fmt.PATH, 'FRAGS': p}, mem=mem, timeout=timeout)
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace)
    chk.add_tlc(t)
    return tlc_cases(t)



def stream(r, f, F, n):
    """a stream as a translator could hand it to the reformatter"""
    out = []
    prefs = [c for c, _ in F['pref']]
    esc = F['esc']

    def body(k):
        return ''.join(r.choice(['\\' + c for c in esc] + ['a', 'é', ' ', '.', '\n', '<' if '<' not in esc else 'b', '"', "'"] + prefs[:40]) for _ in range(r.randint(0, k)))
    for _ in range(n):
        x = r.random()
        if x < .3:
            out.append('[' + body(6) + ']')
        elif x < .4:
            out.append('.[]')
        elif x < .5:
            out.append('\\' + r.choice(esc))
        elif x < .6 and prefs:
            out.append(r.choice(prefs))
        elif x < .65:
            out.append('[]')
        elif x < .75:
            out.append(r.choice(['.', ' ', '..', '\U0001F600', 'ñ', "'", '&']))
        else:
            out.append(re.sub(r'\\.', '', gen.word(r)))
    return ''.join(out)


def trace(chk, tools, what, docs, streams, limit=3):
    """records the runs and has TLC validate them"""
    fmts = fmt.load()
    r = chk.rng
    recs = []
    for k in range(docs):
        f = list(fmts)[k % len(fmts)]
        o = {'n': r.random() < .4, 'i': r.random() < .3, 'o': r.random() < .2}
        o['h'] = o['o']
        recs.append({'kind': 'des', 'f': f, 'opt': o, 'doc': document(r, f, fmts[f], r.randint(1, 12) if k % 50 else 60)})
    for k in range(streams):
        f = list(fmts)[k % len(fmts)]
        recs.append({'kind': 're', 'f': f, 'opt': {'n': False, 'i': False, 'o': False, 'h': False}, 'doc': '', 'out': stream(r, f, fmts[f], r.randint(1, 15))})

    def obs(rec):
        if rec['kind'] == 'des':
            return roundtrip(tools, rec['f'], optargs(rec['opt']), real(rec['doc']))
        return rec['out'], tools.re(rec['f'], rec['out'])

    def spec(x):
        y = []
        for p in re.split('(%s|%s|%s)' % (BIG, FILE, END), x):
            y += [p] if p in (BIG, FILE, END) else list(p)
        return y
    for rec, (o, b) in zip(recs, pmap(obs, recs)):
        rec['out'], rec['back'] = (o if FILE in o else o), b.replace(BIGTEXT, BIG)
    path = os.path.join(chk.tmp, 'fmt.ndjson')
    ctl = [dict(recs[0], out=recs[0]['out'] + '#') if what == 'stream' else dict(recs[0], opt=NOOPT, back=recs[0]['back'] + '#'), dict(recs[-1], back=recs[-1]['back'] + '#')]
    if what == 'stream':
        ctl[1] = ctl[0]
    write_ndjson(path, [{'kind': x['kind'], 'f': x['f'], 'opt': x['opt'], 'inp': spec(x['doc']), 'out': spec(x['out']), 'back': spec(x['back'])} for x in recs + ctl])
    t = tlc('TraceDeformat', 'INIT Init\nNEXT Next\nCONSTANT What = "%s"\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n' % what, env={'TRACE': path, 'FORMATS': fmt.PATH}, timeout=850, cont=True)
    bad = sorted({int(x) for x in re.findall(r'/\\ rec = (\d+)', t.stdout)}) if t.violated else []
    for k in (1, 2):
        if len(recs) + k not in bad:
            raise CheckError('a control record was not rejected by TLC:\n' + t.stdout[-3000:])
        bad.remove(len(recs) + k)
    chk.add_tlc(t, len(recs) - len(bad))
    n = 0
    for b in bad:
        rec = recs[b - 1]
        o, k = obs(rec)
        if (o, k.replace(BIGTEXT, BIG)) != (rec['out'], rec['back']):
            continue
        chk.violation('%s %s: the specification rejects the run: document %r, stream %r, document written back %r' %
                      (rec['f'], optargs(rec['opt']), rec['doc'][:400], rec['out'][:500], rec['back'][:400]),
                      {k: rec[k] for k in ('kind', 'f', 'opt', 'doc', 'out', 'back')})
        n += 1
        if n >= limit:
            break
    for k in (0, len(recs) // 2, len(recs) - 1):
        chk.sample({'from': 'recorded', **{x: recs[k][x][:200] if isinstance(recs[k][x], str) else recs[k][x] for x in ('f', 'opt', 'doc', 'out', 'back')}})
    return recs


def check(chk, what):
    tools = Tools(chk)
    short = {f: COMMON[:-1] + v for f, v in FRAGS.items()}
    full = {f: COMMON + v for f, v in FRAGS.items()}
    if chk.thorough:
        runs = [(full, 2, True)] + [({f: v for f, v in short.items() if f in g}, 3, False)
                                    for g in (('txt', 'html', 'rtf'), ('html-alt', 'odt', 'latex'), ('wxml', 'xlsx', 'pptx'), ('html-noent', 'mediawiki', 'xpresstag'))]
    else:
        runs = [(full, 2, False), ({f: v[:7] + [BIG] for f, v in FRAGS.items()}, 1, True)]
    for fr, n, allopts in runs:
        cases = mc(chk, tools, fr, n, allopts)
        cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
        if chk.thorough and n > 2:          # every case is checked by TLC, a share of them is replayed
            cases = chk.rng.sample(cases, min(len(cases), 14000))

        def obs(c):
            if what == 'stream':
                q = tools.des(c['f'], optargs(c), real(c['in']))
                for x in q[2] if len(q) > 2 else []:
                    os.unlink(x)
                return q[1]
            return roundtrip(tools, c['f'], optargs(c), real(c['in']))[1]
        if what == 'back':
            cases = [c for c in cases if not c['h']]
        n = 0
        for c, o in zip(cases, pmap(obs, cases)):
            e = (c['out'] if FILE in c['out'] else real(c['out'])) if what == 'stream' else real(c['back'])
            if o != e and obs(c) != e:
                chk.violation('%s %s: the document %r %s %r, specified is %r' %
                              (c['f'], optargs(c), c['in'], 'is deformatted to' if what == 'stream' else 'comes back as', o[:300], e[:300]),
                              dict(c, observed=o[:3000]))
                n += 1
                if n > 3:
                    break
            else:
                chk.traces += 1
        chk.sample({'from': 'TLC', 'case': {k: v[:200] if isinstance(v, str) else v for k, v in cases[len(cases) // 2].items()}})
        chk.extra['cases_replayed_into_code'] = chk.extra.get('cases_replayed_into_code', 0) + len(cases)
    trace(chk, tools, what, chk.n(1500, 12000), chk.n(600, 5000) if what == 'back' else 0)
    chk.extra['formats'] = sorted(fmt.load())
    chk.assumptions = ['documents are valid UTF-8 without NUL characters (apertium checks the encoding)',
                       'the markup of each format is the one described by specs/formats.json',
                       'option -o (heading marks are added to the text) is not part of the round trip']


def main(chk):
    check(chk, 'back')
