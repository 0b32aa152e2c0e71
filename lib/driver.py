"""The apertium command against specs/Driver.tla (C26), its programs replaced by ones that write down that they ran."""
import os, re, json, random, shutil, zipfile
import vt
import modes as M

CheckError = vt.CheckError
BIN = ['lt-proc', 'hfst-proc', 'apertium-tagger', 'apertium-pretransfer', 'apertium-transfer', 'apertium-wblank-attach', 'apertium-wblank-detach', 'apertium-restore-caps', 'stage', 'apertium-utils-fixlatex',
       'apertium-postlatex-raw', 'apertium-postlatex'] + \
      ['apertium-re' + f for f in 'txt html html-noent html-alt rtf odt wxml xlsx pptx latex mediawiki xpresstag'.split()]
DES = ['apertium-des' + f for f in 'txt html html-noent html-alt rtf odt wxml xlsx pptx latex mediawiki xpresstag'.split()] + ['apertium-prelatex']
STUB = r'''#!/bin/bash
set -e
n=${0##*/}
case $n in
  apertium-des*|apertium-prelatex)
    f=/dev/stdin; a=()
    for x in "$@"; do case $x in -*) a+=("$x") ;; *) f=$x ;; esac; done
    m=$(printf '%s\n' "${a[@]}" | sort -u | paste -sd, )
    sed "s|\$| ~$n[$m]|" "$f" ;;
  lt-tmxcomp) echo noise; [ -e "$2" ] && ! grep -q bad "$2" && echo "$1" > "$3"; exit ;;
  lt-tmxproc)
    a=(); for x in "$@"; do case $x in -*) a+=("$x") ;; *) f=$x ;; esac; done
    a+=("$(cat "$f")")
    m=$(printf '%s\n' "${a[@]}" | sort -u | paste -sd, )
    sed "s|\$| ~$n[$m]|" ;;
  apertium-adapt-docx) m="$*"; while read -r f; do printf '<file name="%s"/> ' "$f"; tr '\n' ' ' < "$f"; echo "~$n[$m]"; done ;;
  seevar) sed -e 's/\[<STREAMCMD:SETVAR:\([^]>]*\)>\]/SEEN{\1}/g' -e "s|\$| ~$n[$*]|" ;;
  *) IFS=,; sed "s|\$| ~$n[$*]|" ;;
esac
[ "$n" = "$BAD" ] && exit 3
exit 0
'''
PIPES = {'a': "lt-proc '/d/en-es.automorf.bin' | apertium-tagger -g $2 '/d/en.prob' | apertium-pretransfer | lt-proc -b '/d/x.autobil.bin' | lt-proc $1 '/d/en-es.autogen.bin'",
         'b': "hfst-proc -w '/d/es.automorf.hfst' | apertium-transfer '/d/a.t1x' '/d/a.t1x.bin' '/d/a.autobil.bin' | hfst-proc $1 '/d/es.autogen.hfst'",
         'c': "stage -x $1 $2", 'e': "seevar | stage '/d/x y.bin' $1 | seevar | failing", 'd': "lt-proc '/d/q.automorf.bin' | apertium-restore-caps -z r | lt-proc -g '/d/q.autogen.bin'"}
DIRS = {'dflt': {'en-es': 'c', 'fr-es': 'c'}, 'data': {'en-es': 'a', 'es-en': 'b', 'en-es-x': 'c', 'en': 'd', 'v-w': 'e', 'v-w-x': 'e', 'v-w-y': 'e'}, 'o/t her': {'en-es': 'd'}}
PREFS = {'data': {'v-w': [['ize', ['agonise', 'idolise', 'exorcise']], ['color', ['colour', 'hue-x']], ['q', []]], 'v-w-x': [['ize', ['one']]], 'en-es': [['ize', ['a', 'b']]]}}
FORMATS = 'txt html html-noent html-alt rtf line latex latex-raw odt odp docx xlsx pptx wxml mediawiki xpresstag none txtu htmlu xpresstagu odtu odpu docxu xlsxu pptxu wxmlu foo u'.split()
NAMES = {k.replace('-', ''): k for k in 'txt html html-noent html-alt rtf line latex latex-raw odt odp docx xlsx pptx wxml mediawiki xpresstag none'.split()}
NAMES.update(des='apertium-des', re='apertium-re', prelatex='apertium-prelatex', fixlatex='apertium-utils-fixlatex', postlatex='apertium-postlatex-raw', adapt='apertium-adapt-docx', tmxproc='lt-tmxproc',
             on='-n', oo='-o', om='-m', og='-g', os='-s', p1='$1', p2='$2')
WORDS = ['en-es', 'es-en', 'zz', 'in.txt', 'nofile', 'out.txt', '-u', '-a', '-n', '-z', '-s', '-H', '-f', 'html', '-d', 'data', '-l', '-V', '-h', '-x', '--', '-', '-un', '-fodt', '-m', 't.tmx', '-au', '-ddata', '']
ZIPS = {'odt': (['content.xml', 'styles.xml', 'Object %1/content.xml'], ['mimetype', 'meta.xml', 'Pictures/content.png', 'settings.xml', 'xcontent.xml']),
        'docx': (['word/document.xml', 'word/footnotes.xml', 'word/header1.xml'], ['word/settings.xml', 'word/styles.xml', 'word/theme/theme1.xml', 'word/fontTable.xml', '_rels/x.xml', 'docProps/app.xml', '[Content_Types].xml', 'customXml/item1.xml', 'word/media/a.png', 'word/a.xml.bin']),
        'xlsx': (['xl/sharedStrings.xml'], ['xl/workbook.xml', 'xl/worksheets/sheet1.xml', 'xl/styles.xml']),
        'pptx': (['ppt/slides/slide1.xml', 'ppt/slides/slide12.xml'], ['ppt/presentation.xml', 'ppt/slideLayouts/slideLayout1.xml', 'ppt/slides/_rels/slide1.xml.rels', 'ppt/notesSlides/n.xml', 'ppt/slides/x.xml'])}
ZIPS['odp'] = ZIPS['odt']
XML = ['<?xml version="1.0"?>\n<a>one two</a>\n', '<?xml version="1.0"?><b>x\ny</b>\n', '<c>%d "q" <file name="no"/></c>\n']


def rand_av(r):
    av = []
    fmt = None
    opts = []
    if r.random() < .75:
        f = r.choice(FORMATS)
        opts.append(r.choice([['-f', f], ['-f' + f]]))
    if r.random() < .7:
        d = r.choice(['data', 'data', 'data', 'o/t her'])
        opts.append(r.choice([['-d', d], ['-d' + d]]))
    for c in 'uanzHs':
        for _ in range(r.choice([0, 0, 1, 1, 2]) if r.random() < .6 else 0):
            opts.append(['-' + c])
    if r.random() < .25:
        opts.append(['-m', r.choice(['t.tmx', 't.tmx', 'bad.tmx', 'none.tmx', ''])])
        if r.random() < .4:
            opts.append(['-o', r.choice(['es-en', 'x', ''])])
    if r.random() < .03:
        opts.append(['-' + r.choice('lVhxq:?')])
    r.shuffle(opts)
    flat = []
    for o in opts:      # clusters
        if flat and len(o[0]) >= 2 and re.fullmatch('-[uanzHs]+', flat[-1]) and r.random() < .4:
            flat[-1] += o[0][1:]
            flat += o[1:]
        else:
            flat += o
    plain = [r.choice(['en-es', 'en-es', 'en-es', 'es-en', 'en-es-x', 'en', 'zz', 'v-w', 'v-w-x', 'v-w-y'])]
    if r.random() < .6:
        plain.append(r.choice(['in.txt', 'my in.txt', 'in.txt', 'nofile']))
        if r.random() < .6:
            plain.append(r.choice(['out.txt', 'my out', 'sub/o']))
            if r.random() < .05:
                plain.append('more')
    k = r.choice([0, 0, 0, 1, 2, len(plain)])
    return plain[:k] + flat + (['--'] if r.random() < .05 else []) + plain[k:]


def rand_env(r):
    e = {'var': '', 'bad': ''}
    if r.random() < .3:
        item = lambda: r.choice(['ize', 'ize', 'color', 'q', 'other']) + r.choice(['', '=', '=agonise', '=agonise:idolise', '=-agonise', '=-idolise:exorcise', '=-', '=-none', '=-agonise:idolise:exorcise', '=colour', '=-colour', '=-one', '=x-y'])
        e['var'] = ','.join(item() for _ in range(r.choice([1, 1, 1, 2, 2, 3])))
    if r.random() < .15:
        e['bad'] = r.choice(BIN + DES + ['lt-tmxproc', 'failing', 'seevar'] + ['apertium-destxt', 'apertium-retxt', 'lt-proc', 'hfst-proc'] * 6)
    return e


def expected_member(text, marks):
    return ' '.join(text.split('\n')[:-1]).replace('?> ', '?>\n') + marks + '\n'


def mark(pipe):
    return ''.join(' ~%s[%s]' % (p[0], ','.join(p[1:])) for p in pipe)


def build_world(chk):
    b = vt.vbuild.build('apertium', 'apertium-wblank-mode')
    root = os.path.join(chk.tmp, 'drv')
    os.makedirs(os.path.join(root, 'bin'))
    stub = os.path.join(root, 'bin', 'stage')
    with open(stub, 'w') as fd:
        fd.write(STUB)
    os.chmod(stub, 0o755)
    for n in BIN + DES + ['lt-tmxcomp', 'lt-tmxproc', 'apertium-adapt-docx', 'seevar', 'failing']:
        if n != 'stage':
            os.symlink('stage', os.path.join(root, 'bin', n))
    os.symlink(b['apertium'], os.path.join(root, 'bin', 'apertium'))
    os.symlink(b['apertium-wblank-mode'], os.path.join(root, 'bin', 'apertium-wblank-mode'))
    return b, root


def make_dir(root, name):
    d = os.path.join(root, name)
    for x, ms in DIRS.items():
        os.makedirs(os.path.join(d, x, 'modes'))
        for m, p in ms.items():
            with open(os.path.join(d, x, 'modes', m + '.mode'), 'w') as fd:
                fd.write(PIPES[p] + '\n')
    for x, fs in PREFS.items():
        os.makedirs(os.path.join(d, x, 'prefs'))
        for m, ps in fs.items():
            with open(os.path.join(d, x, 'prefs', m + '.xml'), 'w') as fd:
                fd.write('<?xml version="1.0"?>\n<preferences>\n' + ''.join(' <preference id="%s"><description lang="en">x</description>%s</preference>\n' % (k, ''.join('<option id="%s"><label/></option>' % o for o in os_)) for k, os_ in ps) + '</preferences>\n')
    for x in ('nomodes', 'sub', 'tmp'):
        os.makedirs(os.path.join(d, x))
    for x, t in (('t.tmx', 'good'), ('bad.tmx', 'bad')):
        with open(os.path.join(d, x), 'w') as fd:
            fd.write(t)
    return d


def zipped(path, fmt, r, nested=None):
    """an office document; what its members must become, as a function of the marks"""
    doc, other = ZIPS[fmt]
    mem = {}
    with zipfile.ZipFile(path, 'w') as z:
        for n in doc + other:
            if r.random() < .85 or n == doc[0]:
                t = r.choice(XML)
                z.writestr(n, t)
                mem[n] = (t, n in doc)
        if nested:
            z.write(nested[0], nested[1])
    return mem


def check(chk, n, maxlen, limit=4):
    r = chk.rng
    b, root = build_world(chk)
    env = dict(vt.ENV, APERTIUM_PATH=os.path.join(root, 'bin'), APERTIUM_DATADIR='dflt', APERTIUM_TRANSFUSE='no')
    for v in ('AP_SETVAR', 'REF', 'OPTION_TAGGER', 'REDIR', 'UWORDS', 'BORRAFICHERO', 'OUT_FILE', 'TRANSLATION_MEMORY_FILE'):
        env.pop(v, None)
    dp, cp = os.path.join(chk.tmp, 'drv.ndjson'), os.path.join(chk.tmp, 'drvc.ndjson')
    tw = lambda p: [[list(w) for w in M.stage_words(s)] for s in p.split('|')]
    vt.write_ndjson(dp, [{'w': {k: list(v) for k, v in M.W.items()}, 'n': {k: list(v) for k, v in NAMES.items()}, 'words': [list(w) for w in WORDS], 'files': [list(f) for f in ('in.txt', 'my in.txt', 't.tmx', 'bad.tmx')],
                          'tmbad': [list('bad.tmx'), list('none.tmx')], 'dflt': list('dflt'),
                          'dirs': [{'d': list(d), 'modes': [{'m': list(m), 'pl': tw(PIPES[p])} for m, p in ms.items()],
                                     'prefs': [{'m': list(m), 'ps': [{'k': list(k), 'o': [list(o) for o in os_]} for k, os_ in ps]} for m, ps in PREFS.get(d, {}).items()]} for d, ms in DIRS.items()]}])
    given = [(rand_av(r), rand_env(r)) for _ in range(n)]
    for _ in range(n // 10):    # sessions with preferences
        e = {'var': '', 'bad': ''}
        while not e['var'] or e['bad']:
            e = rand_env(r)
        given.append((r.choice([['-f', 'none'], ['-fnone', '-u']]) + ['-d', 'data', r.choice(['v-w', 'v-w-x', 'v-w-y'])] + r.choice([[], ['in.txt'], ['in.txt', 'out.txt']]), e))
    for f in FORMATS:           # every format with every way of input and output, marked and unmarked
        for k, av in enumerate((['-f', f, '-d', 'data', 'en-es'], ['-f', f, '-d', 'data', 'es-en', 'in.txt'], ['en-es', 'in.txt', 'out.txt', '-uf', f, '-ddata'], ['-anHf', f, '-d', 'data', '-z', '-m', 't.tmx', 'en-es', 'my in.txt', 'my out'])):
            given.append((av, {'var': '', 'bad': ''}))
    vt.write_ndjson(cp, [{'av': [list(w) for w in av], 'var': list(e['var']), 'bad': list(e['bad'])} for av, e in given])
    t = vt.tlc('MCDriver', 'INIT Init\nNEXT Next\nCONSTANTS W <- WC\n N <- NC\n World <- WorldC\n MaxLen = %d\nINVARIANTS Ends Moved Twice Inverted Dump\n' % maxlen, env={'DATA': dp, 'CASES': cp}, timeout=800)
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated + t.trace[-3000:])
    chk.add_tlc(t)
    cs = sorted(vt.tlc_cases(t), key=lambda c: (c['g'], c['av']))
    if sum(c['g'] > 0 for c in cs) != len(given):
        raise CheckError('TLC evaluated %d of %d command lines' % (sum(c['g'] > 0 for c in cs), len(given)))
    ends = {}

    def one(k):
        c, q = cs[k % len(cs)], random.Random('%d-%d' % (vt.SEED, k))
        e = c['r']
        if k >= len(cs):        # control: a program fewer must be noticed
            e = dict(e, pipe=e['pipe'][:-2] + e['pipe'][-1:])
        d = make_dir(root, 'w%d' % k)
        fmt = e.get('f', 'txt')
        lines = ['one <b>two</b>', '', ' three "four"', 'ñ'][:q.randint(1, 4)]
        members, nested = None, None
        names = ['in.txt', 'my in.txt', 'stdin']
        text = '\n'.join(lines) + '\n'
        if fmt == 'none':
            for _ in range(q.choice([0, 0, 1, 1, 2, 3])):
                p = q.choice([q.randrange(len(text) + 1), len(text), 0] + [i + 1 for i, ch in enumerate(text) if ch in '\n\0'])
                text = text[:p] + '\0' + text[p:]
        if fmt in ZIPS:
            if fmt in ('docx', 'pptx') and q.random() < .5:
                np = os.path.join(d, 'tmp', 'n.xlsx')
                nm = zipped(np, 'xlsx', q)
                nested = (np, q.choice(['word/embeddings/b.xlsx', 'x y.xlsx']), nm)
            members = zipped(os.path.join(d, 'in.txt'), fmt, q, nested)
            if nested:
                os.remove(nested[0])
            for x in names[1:]:
                shutil.copy(os.path.join(d, 'in.txt'), os.path.join(d, x))
        else:
            for x in names:
                with open(os.path.join(d, x), 'w') as fd:
                    fd.write(text)
        if e.get('in', '').endswith('.tmx'):
            text, members = open(os.path.join(d, e['in'])).read(), None
        cmd = ['bash', b['apertium']] + c['av']
        x = vt.run(cmd, open(os.path.join(d, 'stdin'), 'rb').read(), cwd=d, env=dict(env, TMPDIR=os.path.join(d, 'tmp'), BAD=c['bad'], **({'AP_SETVAR': c['var']} if c['var'] else {})), timeout=40)
        why = judge(c, e, d, x, members, nested, text)
        left = os.listdir(os.path.join(d, 'tmp'))
        if not why and left and e['end'] == 'run':
            why = 'temporary files left behind: %s' % left
        shutil.rmtree(d)
        return (cmd, why, x) if why else None

    def judge(c, e, d, x, members, nested, text):
        made = sorted(f for f in ('out.txt', 'my out', 'sub/o', 'more') if os.path.exists(os.path.join(d, f)))
        if e['end'] in ('error', 'usage'):
            if e['end'] == 'error' and x.rc in (0, 'hang'):
                return 'exit %s instead of an error' % x.rc
            return 'made %s' % made if made else 'wrote %r' % x.text[:200] if '~' in x.text or (e['end'] == 'error' and x.text.strip()) else None
        if e['end'] == 'version':
            return None if x.rc == 0 and 'Apertium' in x.text and not made else 'exit %s, %r' % (x.rc, x.text[:200])
        if e['end'] == 'list':
            if e['dir'] not in DIRS:
                return None
            return None if x.rc == 0 and sorted(x.text.split()) == sorted(DIRS[e['dir']]) else 'exit %s, %r' % (x.rc, x.text[:200])
        if e['fails']:
            return 'exit 0 although %s failed' % c['bad'] if x.rc == 0 else None
        if x.rc != 0:
            if c['bad']:
                return None
            return 'exit %s: %s' % (x.rc, x.err[-300:])
        if made != ([e['out']] if e['out'] else []):
            return 'files made: %s' % made
        if e['out'] and x.out:
            return 'output to %s and to standard output: %r' % (e['out'], x.out[:100])
        res = open(os.path.join(d, e['out']), 'rb').read() if e['out'] else x.out
        marks = mark(e['pipe'])
        if members is None:
            want = text
            if e['var'] and any(p[0] == 'seevar' for p in e['pipe']):
                want = ('SEEN{%s}' % e['var'] + want.replace('\0', '\0SEEN{%s}' % e['var'])) if want else want
            want = ''.join(l + marks + '\n' for l in want.split('\n')[:-1]) + (want.split('\n')[-1] + marks if want.split('\n')[-1] else '')
            got = res.decode('utf-8', 'replace')
            return None if got == want else '%r instead of %r' % (got[:600], want[:600])
        return judge_zip(res, members, marks, nested, e, d)

    def judge_zip(res, members, marks, nested, e, d):
        p = os.path.join(d, 'tmp.zip')
        with open(p, 'wb') as fd:
            fd.write(res)
        try:
            with zipfile.ZipFile(p) as z:
                got = {i: z.read(i) for i in z.namelist() if not i.endswith('/')}
        except Exception as ex:
            return 'not a document any more: %s' % ex
        if nested:
            emb = got.pop(nested[1], None)
            if emb is None:
                return 'embedded document lost'
            w = judge_zip(emb, nested[2], mark(e['emb']), None, e, d)
            if w:
                return 'embedded document: ' + w
        if sorted(got) != sorted(members):
            return 'members %s instead of %s' % (sorted(got), sorted(members))
        for n, (t, tr) in members.items():
            g = got[n].decode('utf-8', 'replace')
            want = expected_member(t, marks) if tr else t
            ok = g == want
            if not ok:
                return 'member %s: %r instead of %r' % (n, g[:500], want[:500])
        return None
    bad = 0
    ctl = [len(cs) + k for k, c in enumerate(cs) if c['r']['end'] == 'run' and len(c['r']['pipe']) > 2 and c['r']['in'] and not c['bad']][-5:]
    res = vt.pmap(one, list(range(len(cs))) + ctl)
    if not ctl or not all(res[len(cs):]):
        raise CheckError('a pipeline short of a program was accepted')
    for c, w in zip(cs, res):
        ends[c['r']['end']] = ends.get(c['r']['end'], 0) + 1
        if w is None:
            chk.traces += 1
            continue
        bad += 1
        if bad <= limit:
            cmd, why, x = w
            chk.violation('apertium %s: %s' % (' '.join(repr(a) for a in cmd[2:]), why), {'cmd': cmd, 'specified': c['r'], 'observed': x.text[:2000], 'stderr': x.err[-1000:]})
    chk.extra['violating_command_lines'] = bad
    chk.extra['command_lines_by_end'] = ends
    chk.sample({'arguments': cs[-1]['av'], 'specified': cs[-1]['r']})
