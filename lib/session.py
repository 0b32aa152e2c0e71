"""Sessions of tools that are kept running, against specs/Session.tla (C05)."""
import os, json
import vt
import gen, xfer, xsuite, caps
import tagger as T

CheckError = vt.CheckError


class Config:
    """name, command (answers every text + NUL), texts of the pool, command for a text of its own (None: the same)"""

    def __init__(self, name, cmd, texts, alone=None):
        self.name, self.cmd, self.texts, self.alone = name, cmd, texts, alone
        self.stuck = False      # it kept a client waiting: no more of its sessions are run


def histories(chk, k, n):
    t = vt.tlc('MCSession', 'INIT Init\nNEXT Next\nCONSTANTS NTexts = %d\n MaxLen = %d\n Wipe = TRUE\n Eager = FALSE\nINVARIANTS Isolated Prompt AsNew Progress Dump\n' % (k, n))
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated)
    chk.add_tlc(t)
    h = sorted(x['h'] for x in vt.tlc_cases(t))
    if len(h) != k ** n:
        raise CheckError('%d histories instead of %d' % (len(h), k ** n))
    return h


def control(chk):
    t = vt.tlc('MCSession', 'INIT Init\nNEXT Next\nCONSTANTS NTexts = 2\n MaxLen = 2\n Wipe = FALSE\n Eager = FALSE\nINVARIANTS Isolated\n')
    u = vt.tlc('MCSession', 'INIT Init\nNEXT Next\nCONSTANTS NTexts = 2\n MaxLen = 3\n Wipe = TRUE\n Eager = TRUE\nINVARIANTS Isolated Prompt AsNew Progress\n')
    chk.add_tlc(u)
    if not t.violated or u.violated:
        raise CheckError('a tool that keeps its residue was not told from one that wipes it')


def run_all(chk, configs, hists, limit=4, timeout=800):
    """hists: lists of text numbers (1-based, up to the size of the pool)"""
    jobs = [(c, h) for c in configs for h in hists if max(h) <= len(c.texts)]
    fresh = {}
    keys = [(c, i) for c in configs for i in range(len(c.texts))]

    def one_fresh(k):
        c, i = k
        if c.stuck:
            return [], 'skipped', ''
        q = vt.flush_session(c.cmd, [c.texts[i]], timeout=15)
        if q[1].startswith('noflush'):
            c.stuck = True
        return q
    for (c, i), (outs, st, tail) in zip(keys, vt.pmap(one_fresh, keys)):
        if st == 'skipped':
            continue
        if st != 'ok' or tail.strip('\0'):
            chk.violation('%s: one text %r: %s, answer %r, after the end %r' % (c.name, c.texts[i], st, outs, tail[:300]), {'cmd': c.cmd, 'texts': [c.texts[i]]})
            outs = ['@none@']
        fresh[c.name, i] = outs[0]
    # the same text in a file of its own
    for (c, i), q in zip(keys, vt.pmap(lambda k: vt.run(k[0].alone, k[0].texts[k[1]], timeout=20) if k[0].alone else None, keys)):
        if q is None or c.stuck:
            continue
        if q.rc != 0 or q.text != fresh[c.name, i]:
            chk.violation('%s: text %r gets %r when flushed and %r at the end of the input (exit %s)' % (c.name, c.texts[i], fresh[c.name, i], q.text, q.rc),
                          {'cmd': c.alone, 'input': c.texts[i], 'flushed': fresh[c.name, i], 'observed': q.text})
        chk.traces += 1
    recs = []
    done = []

    def session(c, h, eager):
        texts = [c.texts[t - 1] for t in h]
        if c.stuck:
            return None
        if not eager:
            q = vt.flush_session(c.cmd, texts, timeout=15)
            if q[1].startswith('noflush'):
                c.stuck = True
            return q
        q = vt.run(c.cmd, ''.join(x + '\0' for x in texts), timeout=20)
        o = q.text.split('\0')
        return o[:-1][:len(h)], 'ok' if q.rc == 0 else 'exit %s' % q.rc, ''.join(o[:-1][len(h):]) + o[-1]

    def record(c, h, eager, outs, tail):
        num = {}

        def nr(o):
            return num.setdefault(o, len(num) + 1)
        fr = [nr(fresh[c.name, i]) for i in range(len(c.texts))]
        feed = [{'e': 'feed', 't': t, 'o': 0} for t in h]
        ans = [{'e': 'ans', 't': 0, 'o': nr(o)} for o in outs]
        close, end = {'e': 'close', 't': 0, 'o': 0}, {'e': 'end', 't': 0, 'o': 0 if tail.strip('\0') == '' else 1}
        if eager:
            ev = feed + [close] + ans + [end]
        else:
            ev = [x for k in range(len(h)) for x in feed[k:k + 1] + ans[k:k + 1]] + [close, end]
        return {'fresh': fr, 'ev': ev}
    # every history with a client that waits; some with one that does not
    jobs = [(c, h, False) for c, h in jobs] + [(c, [t for h in chk.rng.sample(hists, min(len(hists), 12)) for t in h if t <= len(c.texts)], True) for c in configs for _ in range(2)]
    jobs = [j for j in jobs if not j[0].stuck]
    res = vt.pmap(lambda j: session(*j), jobs)
    jobs, res = [j for j, q in zip(jobs, res) if q], [q for q in res if q]
    for (c, h, e), (outs, st, tail) in zip(jobs, res):
        recs.append(record(c, h, e, outs, tail))
    # control records: the wrong answer to the second text; no answer to the last; something after the end; a text fed ahead
    f = {'e': 'feed', 't': 1, 'o': 0}
    a, b, cl, e = {'e': 'ans', 't': 0, 'o': 1}, {'e': 'ans', 't': 0, 'o': 2}, {'e': 'close', 't': 0, 'o': 0}, {'e': 'end', 't': 0, 'o': 0}
    ctl = [{'fresh': [1], 'ev': x} for x in ([f, a, f, b, cl, e], [f, a, f, cl, e], [f, a, cl, dict(e, o=1)], [f, f, a, a, cl, e])]
    bad = []
    for eager in (False, True):
        ix = [i for i, j in enumerate(jobs) if j[2] == eager]
        path = os.path.join(chk.tmp, 'sessions.ndjson')
        cs = ctl[:3] if eager else ctl
        vt.write_ndjson(path, [recs[i] for i in ix] + cs)
        t = vt.tlc('TraceSession', 'INIT Init\nNEXT Next\nCONSTANTS NTexts = 1000\n MaxLen = 1000\n Wipe = TRUE\n Eager = %s\nINVARIANTS Isolated Prompt AsNew Accept\n' %
                   str(eager).upper(), env={'TRACE': path}, timeout=timeout)
        if t.violated:
            raise CheckError('TraceSession violates ' + t.violated)
        ok = {x['c'] - 1 for x in vt.tlc_cases(t)}
        if ok & set(range(len(ix), len(ix) + len(cs))):
            raise CheckError('a control session was accepted')
        chk.add_tlc(t, len(ok))
        bad += [i for k, i in enumerate(ix) if k not in ok]
    seen = {}
    for i in bad:
        c, h, eager = jobs[i]
        if seen.get(c.name, 0) >= 1 or len(seen) > limit:
            continue
        # repeat it
        c.stuck = False
        outs, st, tail = session(c, h, eager)
        want = [fresh[c.name, t - 1] for t in h]
        if outs == want and st == 'ok' and not tail.strip('\0'):
            continue
        seen[c.name] = seen.get(c.name, 0) + 1
        k = next((k for k in range(len(h)) if k >= len(outs) or outs[k] != want[k]), len(h) - 1)
        chk.violation('%s: texts %r: answer %d is %r, a fresh tool gives %r (%s; after the end %r)' %
                      (c.name, [c.texts[t - 1] for t in h[:k + 1]], k + 1, outs[k] if k < len(outs) else None, want[k], st, tail[:200]),
                      {'cmd': c.cmd, 'texts': [c.texts[t - 1] for t in h], 'answers': outs, 'fresh': want, 'status': st})
    chk.extra['configurations'] = chk.extra.get('configurations', 0) + len(configs)
    chk.extra['sessions'] = chk.extra.get('sessions', 0) + len(recs)
    return fresh


# --------------------------------------------------------------------------- material
def sh(*cmds):
    """a pipeline, run by the shell"""
    import shlex
    return ['bash', '-c', ' | '.join(' '.join(shlex.quote(a) for a in c) for c in cmds)]


def rstream(r, n, surf=True):
    """units with and without joins, blanks of all kinds"""
    o = ''
    for _ in range(n):
        x = r.random()
        if x < .5:
            a = '+'.join(gen.word(r, 3, esc=.1) + gen.tags(r, 1, 2, odd=0) for _ in range(r.choice([1, 1, 2, 3])))
            if r.random() < .2:
                a += '# ' + gen.word(r, 3)
            o += (gen.wblank(r, 2) if r.random() < .3 else '') + '^' + (gen.word(r, 3) + '/' if surf else '') + (a if r.random() < .85 else '*' + gen.word(r, 3)) + '$'
        elif x < .7:
            o += gen.superblank(r, 4)
        else:
            o += gen.text(r, 3)
    return o


def simple(chk, k):
    """the tools without a model"""
    r = chk.rng
    b = vt.vbuild.build('apertium-pretransfer', 'apertium-posttransfer', 'apertium-wblank-attach', 'apertium-wblank-detach', 'apertium-extract-caps')
    C = []

    def streams(surf):
        return ['', rstream(r, 6, surf) + ' '] + [rstream(r, r.randint(1, 8), surf) for _ in range(k - 2)]
    for fl in ([], ['-e'], ['-n'], ['-e', '-n']):
        p = b['apertium-pretransfer']
        C.append(Config('pretransfer ' + ' '.join(fl), [p] + fl + ['-z'], streams('-n' in fl), [p] + fl))
    p = b['apertium-posttransfer']
    C.append(Config('posttransfer', [p, '-z'], ['a  b ', '  c', ' ', ''] + [gen.text(r, 9) + '  ' for _ in range(k - 4)], [p]))
    p = b['apertium-wblank-attach']
    sp = ['[[t:b:1]]^a/b<n>$ c', '^x$ [z]^y$', '[[t:b:1]]^a$[[/]] ^b$', '[[t:i:2]][[t:s:3]]^a$', '[[/]]^q/q<n>$', '']
    C.append(Config('wblank-attach', [p], sp[:k], None))
    C.append(Config('wblank-attach -z', [p, '-z'], sp[:k], [p]))
    p = b['apertium-wblank-detach']
    sp = ['[[t:b:1]]^a<n>$ ', ' ^b<n>$', '[[t:b:1]]^a<n>$ [[t:b:1]]^b$', '[z][[t:i:2]]^a$[y]', '', ' [[t:i:2]]^c$ [[t:b:1]]^d$ ']
    C.append(Config('wblank-detach', [p], sp[:k], None))
    C.append(Config('wblank-detach -z', [p, '-z'], sp[:k], [p]))
    p = b['apertium-extract-caps']
    for fl in ([], ['-s']):
        C.append(Config('extract-caps ' + ' '.join(fl), [p] + fl + ['-z'],
                        ['^AB/ab<n>$ x', '[[t:b:1]]^Ab/Cd<n>$ ', ' ^a/b<n>/c<n>$ [z]', '', '^X/*X$', '[[t:i:1]]^É/É<np>$'][:k], [p] + fl))
    return C


def transfer(chk, k, n):
    """random rule files for every stage; texts of the kinds their rules are about"""
    C = []
    for st in 'tip':
        for i in range(n):
            g = xfer.Gen(chk.rng, st, wb=.4, reject=.1) if st != 'i' else xfer.Gen(chk.rng, st)
            rs = g.ruleset()
            s = xfer.Stage(chk, rs, 'c05%s%d' % (st, i))
            texts = [''] + [xfer.seg_text(st, g.seg(m)) for m in [1, 2, 3, 5, 7, 4, 6, 8, 2, 3][:k - 1]]
            C.append(Config('%s %d' % (os.path.basename(s.cmd[0]), i), s.zcmd, texts, s.cmd))
    return C


def states(chk, k):
    """rule files the state of which shows: variables read before they are written, words kept for later"""
    C = []
    L, B = xsuite.lit, xsuite.B
    for st in 'tip':
        if st == 'i':
            W = lambda n: xsuite.iw('%s<n><sg>' % n, '^%s$' % n)
            o = lambda p, *es: xsuite.out(xsuite.ichunk(xsuite.clip(p, 'lem'), *es, xsuite.clip(p, 'tags'), xsuite.clip(p, 'chcontent')))
        elif st == 'p':
            W = lambda n: xsuite.pw('%s<n><sg>' % n, [(n + '<n><sg>', ('t:b:' + n,)), 'q<v>'])
            o = lambda p, *es: xsuite.out(xsuite.lu(xsuite.clip(p, 'lem'), *es, xsuite.clip(p, 'tags')))
        else:
            W = lambda n: xsuite.tw('%s<n><sg>' % n, '%s<n><sg>' % n, ('t:b:' + n,))
            o = lambda p, *es: xsuite.out(xsuite.lu(xsuite.clip(p, 'lem'), *es, xsuite.clip(p, 'tags')))
        for dic in (False, True):
            rs = xsuite.base(st, dictcase=dic, vars={'v1': list('init'), 'v2': [], 'vc': []}, cats={'n': [xsuite.cat(['<n>', '*'])], 'a': [xsuite.cat(['<n>', '*'], 'a')], 'b': [xsuite.cat(['<n>', '*'], 'b')]}
                             if st != 'p' else {'n': [xsuite.cat([], 'n')], 'a': [xsuite.cat([], 'a')], 'b': [xsuite.cat([], 'b')]},
                             rules=[{'pat': ['a'], 'act': [o(1, xsuite.var('v1')), xsuite.let(xsuite.var('v1'), xsuite.clip(1, 'lem')), {'op': 'append', 'n': 'v2', 'es': [L('z')]}]},
                                    {'pat': ['b'], 'act': [o(1, xsuite.var('v1'), xsuite.var('v2')), xsuite.let(xsuite.var('vc'), xsuite.clip(1, 'lem'))]}] +
                                   ([{'pat': ['a', 'b', 'a', 'b'], 'act': [o(4, xsuite.var('vc')), o(2)]}] if st != 'p' else []))
            s = xfer.Stage(chk, rs, 'c05s%s%d' % (st, dic))
            texts = [xfer.seg_text(st, xsuite.seg([W(c) for c in w], bl)) for w, bl in
                     [('a', None), ('b', ['[1]', '[2]']), ('aba', None), ('bb', ['', '[x] ', '\n']), ('', ['[only]']), ('xaA', None)]][:k]
            C.append(Config('state %s %s' % (st, dic), s.zcmd, texts, s.cmd))
    return C


def capitals(chk, k):
    C = []
    rs, cs = caps.random_suite(chk.rng, 4, 12)
    rules = [[caps.rule(1, caps.begin(), caps.match('Aa')), caps.rule(.5, caps.match('AA'), caps.match('aa'), caps.match('dix'))]] + rs
    ps = ['[[c:Aa/aa]]^ab<n>/ab$ [[c:AA/aa]]^cd<n>/cd$', '^ab<n>/ab$ [x]^ef<np>/Ef$ ', '', '[[c:aa/aa; t:b:1]]^x<sent>/.$', '^a<n>/a$', ' ^b<n>/B$[y]^c<n>/c$^d<n>/d$']
    for i, rr in enumerate(rules):
        s = caps.Stage(chk, rr, 'c05caps%d' % i)
        for keep in (False, True):
            C.append(Config('restore-caps %d %s' % (i, keep), s.cmd(keep, True), ps[:k], s.cmd(keep, False)))
    return C


def taggers(chk, k):
    r = chk.rng
    tool = vt.vbuild.build('apertium-tagger')['apertium-tagger']
    C = []

    def text(voc, n):
        us = [dict(r.choice(voc), bl=T.rand_blank(r)) for _ in range(n)]
        return T.show(T.case(0, us, False, False, False, T.rand_tail(r)))
    sets = T.sets_basic()
    for i, s in enumerate(sets):
        base = T.Base(chk, s, 'c05ts%d' % i)
        for kind in ('hmm', 'lsw'):
            m = T.rand_hmm(r, i + 1, s, T.CLASSES[i], spread=3, hole=.03) if kind == 'hmm' else T.rand_lsw(r, i + 1, s, T.CLASSES[i])
            path = os.path.join(chk.tmp, 'c05-%s-%d.prob' % (kind, i))
            with open(path, 'wb') as fd:
                fd.write(T.model_bytes(base, m))
            amb = [u for u in T.VOCAB[i] if len(u['anas']) > 1] or T.VOCAB[i]
            ts = [text(T.VOCAB[i], 4), text(amb, 2), text(amb, 3), '', text(T.VOCAB[i], 6), ' [x] ', text(amb, 1), text(T.VOCAB[i], 9)]
            c = [tool, '-g'] + (['-w'] if kind == 'lsw' else [])
            C.append(Config('%s %d' % (kind, i), c + ['-z', path], ts[:k], c + [path]))
    import itertools
    pool = [T.rand_ana(r) for _ in range(12)] + ['.<sent>']
    sv = T.rand_units(r, 20, pool, hi=4) + [T.unit('.', '.<sent>')]
    for kind in (1, 3):
        path = os.path.join(chk.tmp, 'c05-u%d' % kind)
        T.unigram_train(tool, kind, [u['anas'] for u in sv if not u['unk']], path, chk.tmp)
        ts = [text(sv, 3), '', text(sv, 6), '[x]', text(sv, 1), text(sv, 2)]
        C.append(Config('unigram %d' % kind, [tool, '-g', '-u', str(kind), '-z', path], ts[:k], [tool, '-g', '-u', str(kind), path]))
    known = [u for u in sv if not u['unk']]
    corpus = [(u, r.randrange(len(u['anas']))) for u in (r.choice(known) for _ in range(60))] + [(T.unit('.', '.<sent>'), 0)]
    path = T.perceptron_train(chk, 'c05perc', corpus)
    for fl in ([], ['-b']):
        ts = [text(sv, 3), text(sv, 6), '', '[x]', text(sv, 1), text(sv, 2)]
        C.append(Config('perceptron ' + ' '.join(fl), [tool, '-g', '-x'] + fl + ['-z', path], ts[:k], [tool, '-g', '-x'] + fl + [path]))
    return C


# --------------------------------------------------------------------------- whole pipelines
SDEFS = ''.join('<sdef n="%s"/>' % x for x in 'n v adj pr det sg pl p3 sent np m f ND'.split())
MONO = [('cat', 'cat<n><sg>'), ('cats', 'cat<n><pl>'), ('run', 'run<v><p3>'), ('runs', 'run<v><p3>'), ('runs', 'run<n><pl>'), ('run', 'run<n><sg>'), ('big', 'big<adj>'), ('del', 'de<pr>+the<det><sg>'),
        ('del', 'del<np>'), ('.', '.<sent>'), ('the', 'the<det><sg>'), ('the', 'the<det><pl>'), ('ice cream', 'ice<n><sg># cream')]
BIL = [('cat<n>', 'gat<n><m>'), ('run<v>', 'còrrer<v>'), ('run<n>', 'cursa<n><f>'), ('big<adj>', 'gran<adj>'), ('de<pr>', 'de<pr>'), ('the<det>', 'el<det><ND>'), ('.<sent>', '.<sent>'), ('del<np>', 'Del<np>')]
GEN = [('gat', 'gat<n><m><sg>'), ('gats', 'gat<n><m><pl>'), ('corre', 'còrrer<v><p3>'), ('curses', 'cursa<n><f><pl>'), ('cursa', 'cursa<n><f><sg>'), ('gran', 'gran<adj><sg>'), ('grans', 'gran<adj><pl>'),
       ('de', 'de<pr>'), ('el', 'el<det><sg>'), ('els', 'el<det><pl>'), ('.', '.<sent>'), ('del', 'Del<np>')]


def dix(entries):
    import re

    def side(s):
        o = ''
        for x in re.findall(r'<[^>]*>|.', s):
            o += '<s n="%s"/>' % x[1:-1] if x[0] == '<' and len(x) > 1 else {' ': '<b/>', '+': '<j/>'}.get(x, x)
        i = o.find('#')
        return o if i < 0 else o[:i] + '<g>' + o[i + 1:].replace('<b/>', '<b/>') + '</g>'
    return ('<dictionary><alphabet>abcdefghijklmnopqrstuvwxyzàèòABCDEFGHIJKLMNOPQRSTUVWXYZ</alphabet><sdefs>%s</sdefs><section id="main" type="standard">%s</section>'
            '<section id="f" type="inconditional">%s</section></dictionary>') % (
        SDEFS, ''.join('<e><p><l>%s</l><r>%s</r></p></e>' % (side(a), side(b)) for a, b in entries if a[0] != '.'),
        ''.join('<e><p><l>%s</l><r>%s</r></p></e>' % (side(a), side(b)) for a, b in entries if a[0] == '.'))


T1X = '''<?xml version="1.0" encoding="UTF-8"?><transfer default="chunk">
<section-def-cats><def-cat n="n"><cat-item tags="n.*"/></def-cat><def-cat n="adj"><cat-item tags="adj"/></def-cat><def-cat n="v"><cat-item tags="v.*"/></def-cat><def-cat n="det"><cat-item tags="det.*"/></def-cat></section-def-cats>
<section-def-attrs><def-attr n="num"><attr-item tags="sg"/><attr-item tags="pl"/><attr-item tags="ND"/></def-attr><def-attr n="cat"><attr-item tags="n"/><attr-item tags="adj"/><attr-item tags="v"/><attr-item tags="det"/></def-attr></section-def-attrs>
<section-def-vars><def-var n="last"/><def-var n="number" v="&lt;sg&gt;"/></section-def-vars>
<section-rules>
<rule><pattern><pattern-item n="det"/><pattern-item n="adj"/><pattern-item n="n"/></pattern><action>
<out><chunk name="np"><tags><tag><lit-tag v="NP"/></tag><tag><clip pos="3" side="sl" part="num"/></tag></tags>
<lu><clip pos="1" side="tl" part="lem"/><lit-tag v="det"/><clip pos="3" side="sl" part="num"/></lu><b pos="2"/><lu><clip pos="3" side="tl" part="whole"/></lu><b pos="1"/><lu><clip pos="2" side="tl" part="lem"/><lit-tag v="adj"/><clip pos="3" side="sl" part="num"/></lu></chunk></out>
<let><var n="number"/><clip pos="3" side="sl" part="num"/></let></action></rule>
<rule><pattern><pattern-item n="det"/></pattern><action><out><chunk name="det"><tags><tag><lit-tag v="D"/></tag></tags><lu><clip pos="1" side="tl" part="lem"/><lit-tag v="det"/><var n="number"/></lu></chunk></out></action></rule>
<rule><pattern><pattern-item n="n"/></pattern><action><out><chunk name="n" case="last"><tags><tag><lit-tag v="NP"/></tag><tag><clip pos="1" side="sl" part="num"/></tag></tags><lu><clip pos="1" side="tl" part="whole"/></lu></chunk></out>
<let><var n="last"/><clip pos="1" side="sl" part="lem"/></let></action></rule>
<rule><pattern><pattern-item n="v"/></pattern><action><out><chunk name="v"><tags><tag><lit-tag v="V"/></tag></tags><lu><clip pos="1" side="tl" part="whole"/></lu></chunk></out></action></rule>
</section-rules></transfer>'''
T2X = '''<?xml version="1.0" encoding="UTF-8"?><interchunk>
<section-def-cats><def-cat n="NP"><cat-item tags="NP.*"/></def-cat><def-cat n="V"><cat-item tags="V"/></def-cat></section-def-cats>
<section-def-attrs><def-attr n="num"><attr-item tags="sg"/><attr-item tags="pl"/></def-attr></section-def-attrs>
<section-def-vars><def-var n="subj"/></section-def-vars>
<section-rules><rule><pattern><pattern-item n="V"/><pattern-item n="NP"/></pattern><action><out><chunk><clip pos="2" part="lem"/><clip pos="2" part="tags"/><clip pos="2" part="chcontent"/></chunk><b pos="1"/><chunk><clip pos="1" part="lem"/><var n="subj"/><clip pos="1" part="tags"/><clip pos="1" part="chcontent"/></chunk></out><let><var n="subj"/><clip pos="2" part="lem"/></let></action></rule>
</section-rules></interchunk>'''
T3X = '''<?xml version="1.0" encoding="UTF-8"?><postchunk>
<section-def-cats><def-cat n="np"><cat-item name="np"/></def-cat></section-def-cats>
<section-def-attrs><def-attr n="num"><attr-item tags="sg"/><attr-item tags="pl"/></def-attr></section-def-attrs>
<section-def-vars><def-var n="x"/></section-def-vars>
<section-rules><rule><pattern><pattern-item n="np"/></pattern><action><out><lu><clip pos="1" part="whole"/></lu><b/><lu><clip pos="2" part="whole"/></lu><b pos="1"/><lu><clip pos="3" part="whole"/></lu></out></action></rule></section-rules></postchunk>'''


class Pair:
    """A small language pair, compiled with the tools of the working tree and the installed lttoolbox."""

    def __init__(self, chk):
        self.d = os.path.join(chk.tmp, 'pair')
        os.makedirs(self.d, exist_ok=True)
        self.b = vt.vbuild.build('apertium-preprocess-transfer', 'apertium-pretransfer', 'apertium-posttransfer', 'apertium-transfer', 'apertium-interchunk', 'apertium-postchunk', 'apertium-tagger',
                                 'apertium-wblank-attach', 'apertium-wblank-detach', 'apertium-extract-caps', 'apertium-restore-caps', 'apertium-compile-caps')
        for n, e, dr in (('morf', MONO, 'lr'), ('bil', BIL, 'lr'), ('gen', GEN, 'rl')):
            self.put(n + '.dix', dix(e))
            self.do(['lt-comp', dr, self.p(n + '.dix'), self.p(n + '.bin')])
        for n, t in (('t1x', T1X), ('t2x', T2X), ('t3x', T3X)):
            self.put('r.' + n, t)
            self.do([self.b['apertium-preprocess-transfer'], self.p('r.' + n), self.p(n + '.bin')])
        caps_rules = [caps.rule(1, caps.begin(), caps.match('Aa')), caps.rule(.5, caps.match('AA', srcsurf='AA')), caps.rule(.7, caps.match('Aa', srcsurf='Aa'))]
        self.put('r.crx', caps.to_xml(caps_rules))
        self.do([self.b['apertium-compile-caps'], self.p('r.crx'), self.p('crx.bin')])
        self.put('corpus', '^cat/cat<n><sg>$ ^runs/run<v><p3>$ ^runs/run<v><p3>$ ^the/the<det><sg>$ ^run/run<n><sg>$ ^del/de<pr>+the<det><sg>$ ^./.<sent>$\n')
        self.do([self.b['apertium-tagger'], '-s', '0', '-u', '1', self.p('u1'), self.p('corpus')])

    def p(self, n):
        return os.path.join(self.d, n)

    def put(self, n, t):
        with open(self.p(n), 'w', encoding='utf-8') as fd:
            fd.write(t)

    def do(self, cmd):
        r = vt.run(cmd)
        if r.rc != 0:
            raise CheckError('%r: exit %s %s' % (cmd, r.rc, r.err[:1000]))

    def pipe(self, kind, z=True):
        b, p, zz = self.b, self.p, (['-z'] if z else [])
        core = [[b['apertium-pretransfer']] + zz, ['lt-proc', '-b'] + zz + [p('bil.bin')], [b['apertium-transfer'], '-b'] + zz + [p('r.t1x'), p('t1x.bin')],
                [b['apertium-interchunk']] + zz + [p('r.t2x'), p('t2x.bin')], [b['apertium-postchunk']] + zz + [p('r.t3x'), p('t3x.bin')]]
        tag = [[b['apertium-tagger'], '-g', '-u', '1'] + zz + [p('u1')]]
        morf, gen_, post = [['lt-proc'] + zz + [p('morf.bin')]], [['lt-proc', '-g'] + zz + [p('gen.bin')]], [[b['apertium-posttransfer']] + zz]
        if kind == 'plain':
            return morf + tag + core + gen_ + post
        if kind == 'wblank':
            return morf + [[b['apertium-wblank-attach']] + zz] + tag + core + [[b['apertium-wblank-detach']] + zz] + gen_
        if kind == 'caps':
            return ([['lt-proc', '-w'] + zz + [p('morf.bin')]] + [[b['apertium-wblank-attach']] + zz] + [[b['apertium-tagger'], '-g', '-p', '-u', '1'] + zz + [p('u1')], [b['apertium-extract-caps']] + zz] + core +
                    [['lt-proc', '-b'] + zz + [p('gen-b.bin')], [b['apertium-restore-caps']] + zz + [p('crx.bin')]])
        if kind == 'chunks':
            return morf + tag + core[:3]
        raise KeyError(kind)

    def texts(self, k, wb=False):
        ts = ['The big cats runs. del ', 'the. CAT  runs the cats[]', 'runs del xyz [<b>]Cat[</b>]. ', 'the ', 'Run big\n', '', '[] runs cat.[]\n', 'cats the ice cream del.[]']
        if wb:
            ts = ['[[t:b:1]]The big[[/]] cats [[t:i:2]]runs. del[[/]] ', '[[t:b:1]]the. [[/]][[t:b:1; t:i:2]]CAT  runs[[/]] the cats ', 'runs [[t:s:1]]del[[/]] xyz ', 'the ', '[[t:b:9]]Run ', '', '[] runs cat.[]\n'] + ts[7:]
        return ts[:k]


def pipelines(chk, k):
    P = Pair(chk)
    C = []
    for kind in ('plain', 'wblank', 'chunks'):
        C.append(Config('pipeline ' + kind, sh(*P.pipe(kind)), P.texts(k, kind == 'wblank'), sh(*P.pipe(kind, False))))
    return C
