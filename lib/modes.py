"""apertium-gen-modes against specs/GenModes.tla (C23), apertium-wblank-mode against specs/WblankMode.tla (C24)."""
import os, json
from xml.sax.saxutils import quoteattr
import vt

CheckError = vt.CheckError
K = {'cgproc': 'cg-proc', 'tagger': 'apertium-tagger', 'pretransfer': 'apertium-pretransfer', 'posttransfer': 'apertium-posttransfer', 'lrxproc': 'lrx-proc', 'transfer': 'apertium-transfer',
     'interchunk': 'apertium-interchunk', 'postchunk': 'apertium-postchunk', 'ltproc': 'lt-proc', 'hfstproc': 'hfst-proc', 'lsxproc': 'lsx-proc', 'rtxproc': 'rtx-proc', 'anaphora': 'apertium-anaphora',
     'extractcaps': 'apertium-extract-caps', 'restorecaps': 'apertium-restore-caps', 'automorf': '.automorf.', 'automorfu': '.automorf-untrimmed.',
     'o_n': ' -n', 'o_b': ' -b', 'o_p': ' -p', 'o_g': ' -g', 'o_t': ' -t', 'o_r': ' -r', 'o_d': ' -d'}
for _s in 'disam tagger pretransfer posttransfer lex lextor transfer2 chunker transfer interchunk postchunk dgen generador biltrans pgen morph anmor autoseq anaph decase recase'.split():
    K['s_' + _s] = '-' + _s
K['s_nameme'] = '-NAMEME'
ALPHABET = sorted(set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_@.'))


def arg(v, file=False):
    return {'v': list(v), 'file': file}


def step(cmd, *args, suff=()):
    return {'cmd': list(cmd), 'suff': [list('-' + s) for s in suff], 'args': list(args)}


def mode(name, *steps, install=None, debug=None):
    """install, debug: the text of the attribute, None for none"""
    return {'name': list(name), 'install': install == 'yes', 'debug': debug == 'yes', 'steps': list(steps), 'attrs': (install, debug)}


def T(v):
    return ''.join(v)


def to_xml(ms, r):
    o = '<?xml version="1.0" encoding="UTF-8"?>\n<modes>\n'
    for m in ms:
        at = [('name', T(m['name']))] + [(k, v) for k, v in zip(('install', 'gendebug'), m['attrs']) if v is not None]
        r.shuffle(at)
        o += ' <mode %s>\n' % ' '.join('%s=%s' % (k, quoteattr(v)) for k, v in at)
        if r.random() < .1:
            o += '  <!-- <program name="no"/> -->\n'
        o += '  <pipeline>\n'
        for s in m['steps']:
            at = [('name', T(s['cmd']))] + ([('debug-suff', T(s['suff'][0])[1:])] if s['suff'] else [])
            r.shuffle(at)
            o += '   <program %s>' % ' '.join('%s=%s' % (k, quoteattr(v)) for k, v in at)
            for a in s['args']:
                o += '<%s name=%s/>' % ('file' if a['file'] else 'arg', quoteattr(T(a['v'])))
                if r.random() < .2:
                    o += r.choice(['\n', ' ', '<!--x-->'])
            o += '</program>\n'
        o += '  </pipeline>\n'
        if r.random() < .15:
            o += '  <preferences><pref path="p.yaml"/></preferences>\n'
        o += ' </mode>\n'
    return o + '</modes>\n'


COMMANDS = ['cg-proc', 'cg-proc -w', 'apertium-tagger -g $2', 'apertium-tagger', 'apertium-pretransfer', 'apertium-pretransfer -n', 'apertium-posttransfer', 'lrx-proc -m', 'lrx-proc', 'apertium-transfer -b', 'apertium-transfer -n',
            'apertium-transfer', 'apertium-interchunk', 'apertium-postchunk', 'lt-proc $1', 'lt-proc', 'lt-proc -b', 'lt-proc -p', 'lt-proc -w', 'lt-proc -e -w', 'hfst-proc -w', 'hfst-proc $1', 'hfst-proc', 'lsx-proc', 'lsx-proc -p',
            'rtx-proc', 'apertium-anaphora', 'apertium-extract-caps', 'apertium-restore-caps', 'cat', 'lt-append $1', '/usr/bin/lt-proc', 'apertium-wblank-attach', 'multitrans -b -t', 'wc -l $1 x $1']
PROGRAMS = ['cg-proc', 'apertium-tagger', 'apertium-pretransfer', 'apertium-posttransfer', 'lrx-proc', 'apertium-transfer', 'apertium-interchunk', 'apertium-postchunk', 'lt-proc', 'hfst-proc', 'lsx-proc', 'rtx-proc',
            'apertium-anaphora', 'apertium-extract-caps', 'apertium-restore-caps', 'cat', 'lt-comp', 'apertium-trans']
OPTIONS = ['', ' -b', ' -n', ' -p', ' -g', ' $1', ' -z', ' -t', ' -w', ' -bz', '-b', ' --no-b', ' $2']
FILES = ['en-es.automorf.bin', 'en-es.automorf.hfst', 'en-es.autobil.bin', 'en.prob', 'apertium-en-es.en-es.t1x', 'en-es.t1x.bin', 'dir/en.automorf.bin', 'my file.bin', 'ñ.automorf.bin', '/abs/x.automorf.bin', 'a.automorf.b.automorf.c', 'automorf.bin',
         'a&b.bin', 'x<y>.bin']
ARGS = ['-z', '--flag=1', '$2', 'x.automorf.y', '"a b"', '-1', 'a|b']


def rand_step(r):
    args = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        args.append(arg(r.choice(FILES), True) if r.random() < .75 else arg(r.choice(ARGS)))
    return step(r.choice(COMMANDS), *args, suff=[r.choice(['morph', 'x', 'tagger', 'X-y', 'biltrans'])] if r.random() < .12 else ())


def rand_modes(r):
    names = r.sample(['en-es', 'es-en', 'en-es-tagger', 'en-es-morph', 'en', 'a', 'a-b', 'en-es_US', 'Z', 'en-es-lex', 'en-es-disam', 'en-es-anmor'], r.randint(1, 4))
    return [mode(n, *[rand_step(r) for _ in range(r.choice([0, 1, 2, 3, 5, 8]) if i else r.randint(1, 8))],
                 install=r.choice([None, 'yes', 'no', 'yes']), debug=r.choice([None, 'yes', 'no', 'yes', 'yes'])) for i, n in enumerate(names)]


def gm_cases(r, n):
    C = []
    for k, cm in enumerate(COMMANDS):            # every program alone, first and last
        C.append([mode('m', step(cm, arg('a.automorf.bin', True), arg('-x')), debug='yes')])
        C.append([mode('m', step('lt-proc', arg('a.automorf.bin', True)), step(cm), step('cat'), install='yes', debug='yes')])
        C.append([mode('m', step(cm, arg('f', True)), debug='no'), mode('n', step(cm, suff=['mine']), debug='yes', install='yes')])
    # every program with every two options, in both orders, and with none
    for pr in PROGRAMS:
        for a in OPTIONS:
            C.append([mode('m', step(pr + a, arg('a.automorf.bin', True)), debug='yes'),
                      mode('n', *[step(pr + a + b, arg('f', True)) for b in OPTIONS], debug='yes')])
    # several files and arguments of one program, analysers among them
    for k in range(12):
        C.append([mode('m', step('x', *[arg(f, i != 1) for i, f in enumerate(r.sample(FILES, 4))], suff=['y']), step('lt-proc', arg('b.automorf.bin', True), arg('c.automorf.bin', True)), debug='yes')])
    for _ in range(n):
        C.append(rand_modes(r))
    return C


#: how it is called: options, the directory of modes.xml as written, the directory it runs in, installation directory, where files are named from / where modes go (relative to the scratch directory)
CALLS = [
    ([], 'modes.xml', 'p', None, 'p', 'p/modes'),
    ([], 'p/modes.xml', '', None, 'p', 'p/modes'),
    ([], '@/p/modes.xml', 'q', None, 'p', 'p/modes'),
    ([], './modes.xml', 'p', None, 'p', 'p/modes'),
    ([], '../p/modes.xml', 'q', None, 'p', 'p/modes'),
    (['-f'], 'modes.xml', 'p', '@/inst', 'inst', 'p'),
    (['-f'], 'p/modes.xml', '', 'inst', 'inst', 'p'),
    (['-f', '-l'], '../p/modes.xml', 'q', '@/inst/deep', 'inst/deep', 'q'),
    (['-l', '-f'], '@/p/modes.xml', 'q', '../inst', 'inst', 'q'),
    (['-f'], 'p/modes.xml', '', None, 'p', 'p/modes'),
    (['-l'], './modes.xml', 'p', None, 'p', 'p/modes'),
    (['-l'], 'modes.xml', 'p', None, 'p', 'p/modes'),
]


def gen_modes(chk, cases, limit=3):
    r = chk.rng
    tool = vt.vbuild.build('apertium-gen-modes')['apertium-gen-modes']
    rows, calls = [], []
    for i, ms in enumerate(cases):
        call = CALLS[i % len(CALLS)] if i < 3 * len(COMMANDS) else r.choice(CALLS)
        root = os.path.join(chk.tmp, 'gm', str(i))
        calls.append((call, root))
        rows.append({'modes': [{k: m[k] for k in ('name', 'install', 'debug', 'steps')} for m in ms], 'inst': call[3] is not None, 'dir': list(os.path.join(root, call[4]))})
    np, cp = os.path.join(chk.tmp, 'names.ndjson'), os.path.join(chk.tmp, 'gm.ndjson')
    vt.write_ndjson(np, [{'k': {k: list(v) for k, v in K.items()}, 'alphabet': ALPHABET}])
    want = {}
    for a in range(0, len(rows), 1000):
        vt.write_ndjson(cp, rows[a:a + 1000])
        t = vt.tlc('MCGenModes', 'INIT Init\nNEXT Next\nCONSTANTS K <- KC\n Alphabet <- AC\nINVARIANTS DeclaredKept NoDouble Derived AllSteps Dump\n', env={'NAMES': np, 'CASES': cp})
        if t.violated:
            raise CheckError('the specification itself violates ' + t.violated + t.trace[-3000:])
        chk.add_tlc(t)
        for x in vt.tlc_cases(t):
            f = x['files']
            want[a + x['c'] - 1] = {e['n'] + '.mode': e['l'] for e in (f.values() if isinstance(f, dict) else f)}
    if len(want) != len(rows):
        raise CheckError('TLC evaluated %d of %d cases' % (len(want), len(rows)))

    def one(i):
        (opt, xml, cwd, inst, _, out), root = calls[i]
        for d in ('p', 'q', 'inst/deep'):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        text = to_xml(cases[i], __import__('random').Random(i))
        with open(os.path.join(root, 'p', 'modes.xml'), 'w', encoding='utf-8') as fd:
            fd.write(text)
        at = lambda p: p.replace('@', root)
        cmd = [tool] + opt + [at(xml)] + ([at(inst)] if inst else [])
        q = vt.run(cmd, cwd=os.path.join(root, cwd), timeout=20)
        got = {}
        for d, _, fs in os.walk(root):
            for f in fs:
                if f != 'modes.xml':
                    got[os.path.relpath(os.path.join(d, f), root)] = open(os.path.join(d, f), encoding='utf-8', errors='replace').read()
        exp = {os.path.join(out, n): l + '\n' for n, l in want[i].items()}

        def canon(s):         # the same file by another name is the same file
            import re
            return re.sub(r"'(/[^']*)'", lambda m: "'" + os.path.normpath(m.group(1)) + "'", s)
        a = {k: canon(v) for k, v in exp.items()}
        b = {k: canon(v) for k, v in got.items()}
        if q.rc != 0 or a != b:
            return text, cmd, os.path.join(root, cwd), a, b, q
        return None
    n = 0
    for i, bad in enumerate(vt.pmap(one, range(len(cases)))):
        if bad is None:
            chk.traces += len(want[i])
            continue
        text, cmd, cwd, a, b, q = bad
        n += 1
        if n > limit:
            continue
        diff = ['%s: %r, not %r' % (k, b.get(k), a.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
        chk.violation('gen-modes %s in %s (exit %s): %d files differ from the specified ones: %s\n%s' % (' '.join(cmd[1:]), cwd, q.rc, len(diff), '; '.join(diff[:4]), text),
                      {'cmd': cmd, 'cwd': cwd, 'modes.xml': text, 'expected': a, 'observed': b})
    chk.extra['files_compared'] = sum(len(w) for w in want.values())
    chk.sample({'modes.xml': to_xml(cases[3], r)[:700], 'files': want[3]})


# --------------------------------------------------------------------------- apertium-wblank-mode
W = {'ltproc': 'lt-proc', 'b': '-b', 'z': '-z', 'transfer': 'apertium-transfer', 'autobil': "autobil.bin'", 'morfbin': 'automorf.bin', 'morfhfst': 'automorf.hfst', 'genbin': 'autogen.bin', 'genhfst': 'autogen.hfst',
     'wblank': 'apertium-wblank-', 'restorecaps': 'apertium-restore-caps', 'attach': 'apertium-wblank-attach', 'detach': 'apertium-wblank-detach'}
STAGES = ["lt-proc '/x/a-b.automorf.bin'", "lt-proc -w -z '/x/a-b.automorf.bin'", "hfst-proc -w '/x y/a.automorf.hfst'", "apertium-tagger -g $2 '/x/a.prob'", 'apertium-pretransfer', "lt-proc -b '/x/a.autobil.bin'",
          "apertium-transfer '/x/a.t1x' '/x/a.t1x.bin' '/x/a.autobil.bin'", "apertium-transfer -b '/x/a.t1x' '/x/a.t1x.bin'", "apertium-interchunk '/x/a.t2x' '/x/a.t2x.bin'", "lt-proc $1 '/x/a.autogen.bin'", "hfst-proc -g '/x/a.autogen.hfst'",
          "lt-proc -w '/d/eng-zho.automorf.bin'", "cg-proc '/d-z/x-z.bin'",
          'apertium-restore-caps r.bin', 'apertium-wblank-attach', 'apertium-wblank-detach', 'cat']


def stage_words(s):
    import re
    return re.findall(r"(?:'[^']*'|[^\s'])+", s)


def rand_pl(r):
    o = []
    for _ in range(r.randint(1, 9)):
        s = stage_words(r.choice(STAGES[:13] if r.random() < .95 else STAGES))
        if r.random() < .2:
            s.append(r.choice(['-z', '-zw', '--opt', "'a  b'", '$3', "'x.autogen.bin'", "'q.automorf.hfst'", '-f', 'a.automorf.bin']))
        o.append(s)
    return o


def wblank_mode(chk, n, maxst, limit=3):
    r = chk.rng
    tool = vt.vbuild.build('apertium-wblank-mode')['apertium-wblank-mode']
    wp, cp = os.path.join(chk.tmp, 'words.ndjson'), os.path.join(chk.tmp, 'wm.ndjson')
    tr = lambda pl: [[list(w) for w in s] for s in pl]
    vt.write_ndjson(wp, [{'w': {k: list(v) for k, v in W.items()}, 'stages': tr([stage_words(s) for s in STAGES])}])
    given = [{'pl': rand_pl(r), 'z': r.random() < .5} for _ in range(n)]
    vt.write_ndjson(cp, [{'pl': tr(g['pl']), 'z': g['z']} for g in given])
    t = vt.tlc('MCWblankMode', 'INIT Init\nNEXT Next\nCONSTANTS W <- WC\n MaxStages = %d\nINVARIANTS Kept Again AllFlush Attached Detached Dump\n' % maxst, env={'WORDS': wp, 'CASES': cp}, timeout=800)
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated + t.trace[-3000:])
    chk.add_tlc(t)
    cs = sorted(vt.tlc_cases(t), key=lambda c: (c['g'], c['p'], c['z']))
    rr = [__import__('random').Random('%d-%d' % (vt.SEED, i)) for i in range(len(cs))]

    def render(c, q):
        if c['g'] == 0 and q.random() < .5:
            return ' | '.join(' '.join(s) for s in c['p']) + '\n'
        sp = lambda: ' '
        o = q.choice(['', ' ', '\n'])
        for i, s in enumerate(c['p']):
            if i:
                o += q.choice([' | ', '|', ' |  ', ' |\n', '|\n  '])
            o += sp().join(s)
        return o + q.choice(['', '\n', '  \n\n'])

    def one(k):
        c, q = cs[k], rr[k]
        text = render(c, q)
        z = ['-z'] if c['z'] else []
        if k % 3 == 0:
            path = os.path.join(chk.tmp, 'm%d.mode' % k)
            with open(path, 'w') as fd:
                fd.write(text)
            x = vt.run([tool] + z + [path], timeout=20)
            os.remove(path)
        else:
            x = vt.run([tool] + z, text, timeout=20)
        got = [stage_words(s) for s in x.text.split('|')]
        return None if x.rc == 0 and got == c['o'] and x.text.endswith('\n') and x.text.count('\n') == 1 else (text, z, x)
    bad = 0
    for c, b in zip(cs, vt.pmap(one, range(len(cs)))):
        if b is None:
            chk.traces += 1
            continue
        bad += 1
        if bad <= limit:
            text, z, x = b
            want = ' | '.join(' '.join(s) for s in c['o'])
            chk.violation('wblank-mode %s: %r becomes %r, not %r (exit %s)' % (' '.join(z), text, x.text, want, x.rc), {'cmd': [tool] + z, 'input': text, 'expected': want, 'observed': x.text})
    chk.extra['pipelines'] = len(cs)
    chk.sample({'mode': ' | '.join(' '.join(s) for s in cs[-1]['p']), 'becomes': ' | '.join(' '.join(s) for s in cs[-1]['o'])})
