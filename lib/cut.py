"""Cut inputs: every stage ends, and takes nothing back, against specs/Cut.tla (C29)."""
import os
import vt
import cli as K

CheckError = vt.CheckError
CFG = 'INIT Init\nNEXT Next\nCONSTANTS Mode = "%s"\n MaxWords = %d\nINVARIANTS Edges Closable Base Dump Table\n'
CFGREAD = 'INIT Init\nNEXT Next\nCONSTANTS Mode = "read"\n MaxWords = 0\nINVARIANTS Closable Dump\n'
Z = [[], ['-z']]


def both(*opts):
    return [list(o) + z for o in opts for z in Z]


class Bench:
    """the stages, as command lines in a directory with their files"""

    def __init__(self, chk):
        B = K.Bench(chk)
        b = dict(B.tool)
        more = ('apertium-cleanstream', 'apertium-wblank-attach', 'apertium-wblank-detach')
        html = [d + n for d in ('apertium-des', 'apertium-re') for n in ('html-alt', 'html-noent', 'odt', 'wxml', 'xlsx', 'pptx', 'rtf', 'mediawiki', 'xpresstag')]
        b.update({k[9:]: v for k, v in vt.vbuild.build(*(more + tuple(html))).items()})
        zd = lambda n: os.path.join(B.dir, 'z' + n)
        S = {}

        def add(stage, tool, where, opts, files=()):
            for o in opts:
                S.setdefault(stage, []).append(([b[tool]] + list(o) + list(files), where, tool + ''.join(' ' + x for x in o)))
        add('pretransfer', 'pretransfer', B.dir, both([], ['-e']))
        add('pretransfer-n', 'pretransfer', B.dir, both(['-n'], ['-n', '-e']))
        add('posttransfer', 'posttransfer', B.dir, both([]))
        add('cleanstream', 'cleanstream', B.dir, [[], ['-n'], ['-b']])
        add('wblank-attach', 'wblank-attach', B.dir, Z)
        add('wblank-detach', 'wblank-detach', B.dir, Z)
        add('extract-caps', 'extract-caps', B.dir, both([], ['-s']))
        add('restore-caps', 'restore-caps', zd('restore-caps'), both([], ['-k']), ['f1'])
        for k, m in (([], 'mh'), (['-u', '1'], 'm1'), (['-u', '2'], 'm2'), (['-u', '3'], 'm3'), (['-w'], 'mw'), (['-x'], 'mx')):
            add('tagger-x' if m == 'mx' else 'tagger', 'tagger', zd('tagger'), [['-g'] + k + o + z for o in ([], ['-f', '-p'], ['-m']) for z in Z], [m])
        add('transfer', 'transfer', zd('transfer'), both(['-b'], ['-b', '-t']), ['f1', 'f2'])
        add('multiple-translations', 'multiple-translations', zd('multiple-translations'), [[]], ['f1', 'f2'])
        add('interchunk', 'interchunk', zd('interchunk'), both([], ['-t']), ['f1', 'f2'])
        add('postchunk', 'postchunk', zd('postchunk'), both([], ['-t']), ['f1', 'f2'])
        for st, ns in (('html', 'deshtml deshtml-alt deshtml-noent'), ('txt', 'destxt'), ('tex', 'deslatex'), ('rtf', 'desrtf'), ('xml', 'desodt deswxml desxlsx despptx desxpresstag'), ('wiki', 'desmediawiki'),
                       ('re', 'retxt rehtml rehtml-alt rehtml-noent relatex rertf reodt rewxml rexlsx repptx remediawiki rexpresstag'), ('latex', 'prelatex'), ('relatex', 'postlatex postlatex-raw')):
            for n in ns.split():
                add(st, n, B.dir, [[]])
        self.S, self.memo, self.hung = S, {}, 0

    def run(self, stage, i, text):
        cmd, where, _ = self.S[stage][i]
        if self.hung > 4:             # one tool that never ends is enough
            return None
        r = vt.run(['prlimit', '--as=4000000000'] + cmd, text.encode('utf-8'), cwd=where, timeout=8)
        if r.rc == 'hang':
            self.hung += 1
        return r.rc, r.out, r.err[-300:]

    def all(self, jobs):
        """run each (stage, configuration, text) once"""
        todo = sorted({j for j in jobs if j not in self.memo}, key=str)
        for j, r in zip(todo, vt.pmap(lambda j: self.run(*j), todo)):
            if r:
                self.memo[j] = r

    def stands(self, stage, i, base):
        """what is given for the part that counts (some write one more null character at the end of the input)"""
        o = self.memo[stage, i, base][1]
        return o[:-1] if o.endswith(b'\0') and o.count(b'\0') > base.count('\0') else o

    def name(self, stage, i):
        return 'apertium-' + self.S[stage][i][2]


def streams(chk, n, nlong, longest):
    t = vt.tlc('MCCut', CFG % ('all', n), mem='12g', timeout=800)
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace[:6000])
    chk.add_tlc(t)
    cs = vt.tlc_cases(t)
    tab = [c for c in cs if 'stages' in c][0]
    out = [c for c in cs if 'kind' in c]
    path = os.path.join(chk.tmp, 'cut.ndjson')
    r, recs = chk.rng, []
    for _ in range(nlong):
        k = r.choice(sorted(tab['words']))
        lo = 0 if any(c['stream'] for c in out if c['kind'] == k) else 1
        recs.append({'k': k, 'w': [r.randint(lo, tab['words'][k]) for _ in range(r.randint(n + 1, longest))]})
    vt.write_ndjson(path, recs)
    u = vt.tlc('MCCut', CFG % ('file', 0), env={'CASES': path}, mem='8g', timeout=800)
    if u.violated:
        raise CheckError('the specification itself violates ' + u.violated + '\n' + u.trace[:6000])
    chk.add_tlc(u)
    lng = [c for c in vt.tlc_cases(u) if 'kind' in c]
    if len(lng) != nlong:
        raise CheckError('%d random streams, %d came back' % (nlong, len(lng)))
    for c in out + lng:
        c['txt'] = [vt.dec(x) for x in c['txt']]
    # texts that are the beginning of others are cut there anyway
    return tab['stages'], sorted(out, key=lambda c: (c['kind'], c['txt'])), sorted(lng, key=lambda c: (c['kind'], c['txt']))


def read_back(chk, texts):
    """for each (of chunks, text): does the machine of the specification find nothing open at its end"""
    path = os.path.join(chk.tmp, 'read.ndjson')
    vt.write_ndjson(path, [{'c': c, 't': vt.enc(t)} for c, t in texts])
    u = vt.tlc('MCCut', CFGREAD, env={'CASES': path}, mem='10g', timeout=800)
    if u.violated:
        raise CheckError('the specification itself violates ' + u.violated + '\n' + u.trace[:6000])
    chk.add_tlc(u)
    got = {c['src']: c['clean'] for c in vt.tlc_cases(u)}
    if len(got) != len(texts):
        raise CheckError('%d texts to read, %d answers' % (len(texts), len(got)))
    return [got[i + 1] for i in range(len(texts))]
