"""The command lines of the tools against specs/Cli.tla (C28)."""
import os, random
import vt
import session as S
import tagger as T
import caps

CheckError = vt.CheckError
CFG = 'INIT Init\nNEXT Next\nCONSTANTS Mode = "%s"\n Pairwise = %s\nINVARIANTS Plain Ahead Kept Table Dump\n'
QUIET = ('tagger-apply-new-rules', 'tagger-readwords')     # their messages repeat the command line
KNOWN = ('f1', 'f2', 'f3', 'in', 'ext', 'm1', 'm2', 'm3', 'mw', 'mx', 'mh')

T1 = S.T1X.replace('<clip pos="1" side="tl" part="whole"/></lu></chunk></out>\n<let>', '<get-case-from pos="1"><clip pos="1" side="tl" part="whole"/></get-case-from></lu></chunk></out>\n<let>')
T2 = S.T2X.replace('<clip pos="2" part="lem"/><clip pos="2" part="tags"/>', '<get-case-from pos="1"><clip pos="2" part="lem"/></get-case-from><clip pos="2" part="tags"/>')
T3 = S.T3X.replace('<lu><clip pos="1" part="whole"/></lu>', '<lu><get-case-from pos="2"><clip pos="1" part="whole"/></get-case-from></lu>')
HTML = '<p>One &amp; <b>two</b>.</p>\n<h1>Head %s</h1>\n<p>End</p>\n'
TEXTS = {
    'pretransfer': '^a/a<n>+b<m># c$ [x]^x<a>~y<n>+z<v># q$ ^k/k<a>~y<n>$ ^%s/%s<n>+t<u># v$\n',
    'posttransfer': 'a  b %s   c\n',
    'transfer': '^the<det><sg>/el<det><ND>$ ^CAT<n><sg>/gat<n><m><sg>$ ^Cat<n><sg>/Gat<n><m><sg>$ ^cat<n><pl>/gat<n><m><pl>$ [%s] ^*dog$ ^run<v><p3>/còrrer<v><p3>$\n',
    'interchunk': '^V<V>{^a<v>$}$ ^np<NP><sg>{^b<n><2>$}$ ^v<V>{^%s<v>$}$ ^N<NP><sg>{^b<n><2>$}$ ^x<X>{}$\n',
    'postchunk': '^np<NP><sg>{^a<det>$ ^B<n><2>$ ^c<adj>$}$ ^Np<NP><sg>{^AD<det>$ ^b<n>$ ^%s<adj>$}$ ^x<X>{^y<z>$}$\n',
    'extract-caps': '^Ab/ab<n>$ [[t:b:1]]^CD/Cd<np>$ ^%s/x<n>$\n',
    'restore-caps': '[[c:Aa/aa; t:b:1]]^ab<n>/ab$ [[c:AA/aa]]^cd<n>/cd$ [[t:%s:1]]^x<n>/x$\n',
    'tagger': '^a/x<n>/x<v>$ [%s] ^b/y<v>/y<n>/y<adj>$ ^U/*U$ ^a/x<n>/x<v>$^./.<sent>$\n',
    'tagger-readwords': '^a/x<n>/x<v>$ ^b/y<v>/y<n>$ [%s]^./.<sent>$ ^a/x<n>$\n',
    'multiple-translations': '^cat<n><sg>$ [%s] ^run<v><p3>$\n',
    'filter-ambiguity': '^a/x<n>/x<v>$ ^b/y<v>/y<n>$ [%s]^./.<sent>$\n',
    'destxt': 'One (two)\n\n%s. Three\n\n* four\n', 'deshtml': HTML, 'deshtml-alt': HTML, 'deslatex': '\\section{One %s}\n\nTwo \\emph{three}.\n',
    'desodt': '<text:p>One %s</text:p><text:h>Two</text:h>',
    'retxt': 'One [ \n]two.[][%s]\n', 'rehtml': 'One [<b>]t&o[</b>] %s.[][\n]', 'relatex': 'One [\\emph{]two[}] %s\n', 'rertf': 'One [{\\\\b ]two[}] é%s\n',
    'prelatex': '\\documentclass{a}\n\\begin{document}\nOne $x$ \\\'e %s\n\\end{document}\n', 'postlatex': '<CONTENTS/>One <MATH>x<MATH/> é %s', 'postlatex-raw': 'One <MATH>x</MATH> é %s\n',
}
# options the effect of which shows on these texts (the others are z, help and what says the same twice)
VISIBLE = {'pretransfer': [[], ['e'], ['n'], ['e', 'n']], 'transfer': [[], ['b'], ['n'], ['b', 'w'], ['b', 't'], ['b', 'w', 't'], ['b', 'T'], ['c'], ['c', 'w'], ['n', 'w'], ['n', 't'], ['c', 't'], ['w'], ['t']],
           'interchunk': [[], ['t'], ['w'], ['t', 'w']], 'postchunk': [[], ['t'], ['w'], ['t', 'w']], 'extract-caps': [[], ['s']], 'restore-caps': [[], ['k']],
           'destxt': [[], ['i'], ['n']], 'deshtml': [[], ['n'], ['o'], ['n', 'o']], 'deshtml-alt': [[], ['n'], ['o'], ['n', 'o']]}
FLUSHED = ('pretransfer', 'transfer', 'interchunk', 'postchunk', 'extract-caps', 'restore-caps', 'tagger')
TAGGERS = [[k + list(o) for o in ('', 'f', 'p', 'm', 'fm', 'pm')] for k in ([], ['u', '1'], ['w'], ['x'])]
TSX = '''<?xml version="1.0" encoding="UTF-8"?><tagger name="t"><tagset><def-label name="N" closed="true"><tags-item tags="n"/></def-label><def-label name="V"><tags-item tags="v"/></def-label><def-label name="A"><tags-item tags="adj"/></def-label>
<def-label name="S" closed="true"><tags-item tags="sent"/></def-label></tagset><forbid><label-sequence><label-item label="N"/><label-item label="N"/></label-sequence></forbid></tagger>'''


def spelled(n, o):
    """the plainest command line of a tool with the options o"""
    w = ['-' + x if len(x) == 1 and not x.isdigit() else x for x in o]
    if n == 'tagger':
        w = ['-g'] + w + [{'u': 'm1', 'w': 'mw', 'x': 'mx'}.get(o[0] if o else '', 'mh')]
    return w + {'transfer': ['f1', 'f2'] + ([] if set(o) & {'b', 'n'} else ['f3']), 'interchunk': ['f1', 'f2'], 'postchunk': ['f1', 'f2'], 'restore-caps': ['f1']}.get(n, [])


class Bench:
    """masters of every file of every tool"""

    def __init__(self, chk):
        self.chk, self.files, self.canon = chk, {}, {}
        P = S.Pair(chk)
        self.P = P
        b = P.b
        get = lambda f: open(P.p(f), 'rb').read()
        for n, t, dst in (('t1', T1, 'c.t1x'), ('t2', T2, 'c.t2x'), ('t3', T3, 'c.t3x')):
            P.put(dst, t)
            P.do([b['apertium-preprocess-transfer'], P.p(dst), P.p(dst + '.bin')])
        P.put('ext.dix', S.dix([('cat<n>', 'moix<n><m>'), ('dog', 'gos')]))
        P.do(['lt-comp', 'lr', P.p('ext.dix'), P.p('ext.bin')])
        F = self.files
        F['transfer'] = {'f1': get('c.t1x'), 'f2': get('c.t1x.bin'), 'f3': get('bil.bin'), 'ext': get('ext.bin')}
        F['interchunk'] = {'f1': get('c.t2x'), 'f2': get('c.t2x.bin')}
        F['postchunk'] = {'f1': get('c.t3x'), 'f2': get('c.t3x.bin')}
        F['preprocess-transfer'] = {'f1': get('c.t1x')}
        F['compile-caps'] = {'f1': get('r.crx')}
        F['restore-caps'] = {'f1': get('crx.bin')}
        F['multiple-translations'] = {'f1': get('c.t1x.bin'), 'f2': get('bil.bin')}
        P.put('c.tsx', TSX)
        tg = vt.vbuild.build('apertium-tagger', 'apertium-filter-ambiguity', 'apertium-tagger-apply-new-rules', 'apertium-tagger-readwords', 'apertium-multiple-translations')
        tagger = tg['apertium-tagger']
        dic = '^a/x<n>/x<v>$ ^b/y<v>/y<n>/y<adj>$ ^c/y<adj>$ ^./.<sent>$\n'
        crp = '^a/x<n>$ ^b/y<v>$ ^a/x<n>$ ^c/y<adj>$ ^./.<sent>$\n' * 4
        P.put('c.dic', dic)
        P.put('c.crp', '^a/x<n>/x<v>$ ^b/y<v>/y<n>/y<adj>$ ^a/x<n>/x<v>$ ^c/y<adj>$ ^./.<sent>$\n' * 4)
        P.do([tagger, '-t', '2', P.p('c.dic'), P.p('c.crp'), P.p('c.tsx'), P.p('mh')])
        P.do([tagger, '-w', '-t', '2', P.p('c.dic'), P.p('c.crp'), P.p('c.tsx'), P.p('mw')])
        P.put('c.tagged', crp)
        for k in '123':
            P.do([tagger, '-s', '0', '-u', k, P.p('m' + k), P.p('c.tagged')])
        us = [(T.unit('a', 'x<n>', 'x<v>'), 1), (T.unit('b', 'y<v>', 'y<n>', 'y<adj>'), 0), (T.unit('.', '.<sent>'), 0)]
        mx = open(T.perceptron_train(chk, 'cliperc', us * 8), 'rb').read()
        F['tagger'] = {m: get(m) for m in ('mh', 'mw', 'm1', 'm2', 'm3')}
        F['tagger']['mx'] = mx
        F['filter-ambiguity'] = {'f1': get('c.tsx')}
        F['tagger-readwords'] = {'f1': get('mh'), 'f2': get('c.tsx')}
        F['tagger-apply-new-rules'] = {'f1': get('mh'), 'f2': get('c.tsx')}
        self.stdin, self.infile = {}, {}
        names = list(TEXTS) + ['tagger-apply-new-rules', 'preprocess-transfer', 'compile-caps']
        for n in names:
            t = TEXTS.get(n, '')
            self.stdin[n] = t.replace('%s', 'k').encode()
            self.infile[n] = (t.replace('%s', 'j') * 2).encode()
        self.tool = {n: p for n, p in zip(names, (vt.vbuild.build(*['apertium-' + n for n in names])['apertium-' + n] for n in names))}
        self.dir = os.path.join(chk.tmp, 'cli')
        self.home = os.path.join(self.dir, 'canon')
        os.makedirs(self.home)
        for n in names:
            os.makedirs(os.path.join(self.dir, 'z' + n))
            for f, x in self.masters(n).items():
                with open(os.path.join(self.dir, 'z' + n, f), 'wb') as fd:
                    fd.write(x)

    def masters(self, n):
        m = dict(self.files.get(n, {}))
        m['in'] = self.infile[n]
        return m

    def run_in(self, d, n, words, inp):
        """in a directory of its own: status, standard output, messages, files afterwards"""
        os.makedirs(d)
        m = self.masters(n)
        for f in m:
            with open(os.path.join(d, f), 'wb') as fd:
                fd.write(m[f])
        r = vt.run([self.tool[n]] + words, inp, cwd=d, timeout=20)
        after = {}
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            with open(p, 'rb') as fd:
                after[f] = fd.read()
            os.remove(p)
        os.rmdir(d)
        return r.rc, r.out, '' if n in QUIET else r.err, {f: after[f] for f in after if after[f] != m.get(f)}, [f for f in m if f not in after]

    def canonical(self, c):
        """what the plainest way of asking gives, and what it says"""
        n = c['p']
        k = (n, tuple(c['canon']), c['inp'])
        if k not in self.canon:
            words = list(c['canon'])
            if n in ('preprocess-transfer', 'compile-caps'):
                words = ['f1', 'plain-output']
            elif n == 'tagger-apply-new-rules':
                words = ['plain-output' if w == c['out'] else w for w in words]
            rc, out, err, changed, gone = self.run_in(os.path.join(self.home, str(len(self.canon)) + n), n, words, self.infile[n] if c['inp'] else self.stdin[n])
            self.canon[k] = (rc, changed.get('plain-output', None) if 'plain-output' in words else out, err)
        return self.canon[k]

    def one(self, i, c):
        """None, or what is wrong"""
        n = c['p']
        rc, out, err, changed, gone = self.run_in(os.path.join(self.dir, 'c%d' % i), n, c['w'], self.stdin[n])
        if gone:
            return 'it removed %s' % gone
        if c['res'] != 'run':
            if isinstance(rc, str) or rc < 0 or rc > 125:
                return 'it %s' % ('hangs' if rc == 'hang' else 'dies of %s' % rc)
            bad = [f for f in changed if f in KNOWN]
            if bad:
                return 'it changed %s' % bad
            if c['res'] == 'error' and rc == 0:
                return 'it is wrong, and the exit status is 0'
            if c['res'] == 'error' and out:
                return 'it is wrong, and %r is on standard output' % out[:200]
            if c['res'] == 'usage' and not (out or err or n in QUIET):
                return 'no help was given'
            return None
        wrc, want, says = self.canonical(c)
        if rc != 0 or wrc != 0:
            return 'exit status %s (asked for plainly: %s): %s' % (rc, wrc, err[-300:])
        if c['out']:
            if set(changed) != {c['out']}:
                return 'files written: %s, expected %s' % (sorted(changed), c['out'])
            if out:
                return '%r is on standard output, an output file was named' % out[:200]
            got = changed[c['out']]
        else:
            if changed:
                return 'files written: %s' % sorted(changed)
            got = out
        if got != want:
            return 'it gives %r; asked for plainly (%s) it gives %r' % (got[:400], ' '.join(c['canon']), want[:400])
        if err != says:
            return 'its messages are %r; asked for plainly (%s) %r' % (err[:300], ' '.join(c['canon']), says[:300])
        return None

    def flush(self, c):
        """an answer before the end of the input"""
        n = c['p']
        d = os.path.join(self.dir, 'z' + n)
        outs, st, tail = vt.flush_session([self.tool[n]] + c['w'], [self.stdin[n]], timeout=15, cwd=d)
        if st != 'ok':
            return 'null flush: %s' % st
        return None


def words_of(tab, r):
    """a longer command line: names with two to five groups of option words among them"""
    t = r.choice(tab)
    ws = [{'k': 'name', 'ls': [], 'n': n, 'v': '', 'has': False} for n in r.choice(t['rows'])]
    if t['name'] == 'tagger' and r.random() < .9:
        ws.insert(0, {'k': 'short', 'ls': ['g'], 'n': '', 'v': '', 'has': False})
    if r.random() < .1 and ws:
        r.choice(ws)['n'] = 'missing'
        ws = [w for w in ws if w['n'] or w['ls']]
    good = [g for g in t['groups'] if g[0]['k'] != 'end' and all(set(w['ls']) <= set(t['opts']) for w in g) and not (t['name'] != 'tagger' and any('h' in w['ls'] or w['n'].startswith('he') for w in g))]
    fl = []
    for _ in range(r.randint(2, 5)):
        i = r.randint(0, len(ws))
        fl.append((i, r.choice(good if good and r.random() < .85 else t['groups'])))
    for i, g in sorted(fl, key=lambda x: -x[0]):
        ws[i:i] = [dict(w) for w in g]
    # no word of another's argument may be split off: positions inside a group are not used
    return {'p': t['tool'], 'w': ws}


def cases(chk, nlong, nshort):
    t = vt.tlc('MCCli', CFG % ('all', str(chk.n(False, True)).upper()), mem='12g', timeout=800)
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace[:6000])
    chk.add_tlc(t)
    cs = vt.tlc_cases(t)
    tab = sorted((x for x in cs if 'rows' in x), key=lambda x: x['tool'])
    tab = [dict(x, rows=sorted(x['rows']), groups=sorted(x['groups'], key=str)) for x in tab]
    cs = sorted((x for x in cs if 'res' in x), key=lambda x: (x['p'], x['w']))
    seen, short = set(), []
    for c in cs:
        k = (c['p'], tuple(c['w']))
        if k not in seen:
            seen.add(k)
            short.append(c)
    path = os.path.join(chk.tmp, 'cli.ndjson')
    tb = [x for x in tab if x['groups']]
    vt.write_ndjson(path, [words_of([chk.rng.choice(tb)], chk.rng) for _ in range(nlong)])
    u = vt.tlc('MCCli', CFG % ('file', 'FALSE'), env={'CASES': path}, mem='8g', timeout=800)
    if u.violated:
        raise CheckError('the specification itself violates ' + u.violated + '\n' + u.trace[:6000])
    chk.add_tlc(u)
    long_ = sorted((x for x in vt.tlc_cases(u) if 'res' in x), key=lambda x: x['src'])
    # every tool and every verdict, the runs before all
    by = {}
    for c in short:
        by.setdefault((c['p'], c['res']), []).append(c)
    pick = []
    for k in sorted(by):
        chk.rng.shuffle(by[k])
        pick += by[k][:nshort * (4 if k[1] == 'run' else 1)]
    chk.extra['command_lines_of_the_model'] = len(short) + len(long_)
    return pick + long_
