"""apertium-tmxbuild against specs/TmxBuild.tla (C30)."""
import os, re
import xml.etree.ElementTree as ET
import vt

CheckError = vt.CheckError
ORDER = [chr(i) for i in range(9, 127)] + list('éñü')
LETTERS = [c for c in ORDER if c.isalpha()]
WIDE = list('éñü')
CFG = ('INIT Init\nNEXT Next\nCONSTANTS Letters <- LettersC\n Wide <- WideC\n Order <- OrderC\n MaxA = %d\n MaxB = %d\n'
       'INVARIANTS AllText InOrder Self Clean Dump\n')
#: pieces of the enumerated texts: the ways a sentence can end or begin, numbers, format
PA = ['The red 12 house is old.', ' They went to see it?', '[<b>]', '\n', ' Yes.', ' The end of 3.5 is near']
PB = ['La casa roja 12 es vieja.', ' Fueron a ver la casa!', '[ </i> ]', ' ', ' El fin de 3.5 se acerca']
EN = 'the a house tree old see went they new with and of in Anna Rome big small runs never water stone under'.split()
ES = 'la un casa árbol vieja ver fueron ellos nuevo con y de en Anna Rome grande poco corre nunca agua piedra bajo'.replace('á', 'é').split()
MARK = ['[<b>]', '[ <i>]', '[</b> ]', '[ ]', '[]', '[\n]', '[a\\]b]', '[\\[]', '[[t:i:1]]']
ODD = ['\\[', '\\]', '\\^', '\\$', '\\/', '\\\\', '\\.', '<', '>', '&', '"', "'", '(', '3.5', '$5', '+', '-', 'e.g', 'a.b', '...', ';']


def sentence(r, n, last):
    """the words of a sentence in both languages (as dictionary numbers), sometimes with numbers"""
    ws = []
    for _ in range(n):
        ws.append(('n', str(r.choice([1, 7, 12, 12, 30, 1999]))) if r.random() < .1 else ('w', r.randrange(len(EN))))
    return ws


def say(r, ws, dic, wild, last):
    out = []
    for k, x in ws:
        w = dic[x] if k == 'w' else x
        q = r.random()
        if q < .05 * wild:
            w += r.choice(ODD)
        elif q < .08 * wild:
            w = r.choice(ODD)
        elif q < .16 * wild:
            w = r.choice([w + r.choice(MARK), r.choice(MARK) + w, w[:1] + r.choice(MARK) + w[1:]])
        elif q < .19 * wild:
            w += r.choice([',', 'é', 'Ñ'.lower()])
        out.append(w)
    s = ''
    for i, w in enumerate(out):
        s += (' ' if i and r.random() < .96 else r.choice(['  ', '\n', '\t', ' [x] ']) if i else '') + w
    end = r.choice(['.', '.', '.', '.', '?', '!', '..', '?!', '.[]'])
    return s + ('' if last and r.random() < .3 else end)


def texts(r):
    """a text and something like its translation"""
    n, wild = r.randint(1, 6), r.choice([0, 1, 1])
    src = [sentence(r, r.choice([1, 2, 4, 5, 6, 8]), False) for _ in range(n)]
    dst = [list(x) for x in src]
    for _ in range(r.choice([0, 0, 1, 2])):
        q = r.random()
        i = r.randrange(len(dst)) if dst else 0
        if q < .3 and len(dst) > 1:
            del dst[i]
        elif q < .5:
            dst.insert(i, sentence(r, r.randint(1, 6), False))
        elif q < .7 and len(dst) > 1 and i + 1 < len(dst):
            dst[i:i + 2] = [dst[i] + dst[i + 1]]
        elif dst and len(dst[i]) > 3:
            k = r.randrange(1, len(dst[i]))
            dst[i:i + 1] = [dst[i][:k], dst[i][k:]]
    if r.random() < .1:
        dst = []
    dic = r.choice([ES, ES, ES, EN])
    res = []
    for sents, d in ((src, EN), (dst, dic)):
        t = r.choice(['', '', '', '[<p>]', ' ', '\n'])
        for i, ws in enumerate(sents):
            t += say(r, ws, d, wild, i + 1 == len(sents)) + r.choice([' ', ' ', ' ', '  ', '\n', '[\n]', '[<br>]', '[ ] ', ' \n ', '', ''])
        t += r.choice(['', '', '\n', '.[][\n]', '[', '\\', '[<x'])
        res.append(t)
    return res[0], res[1]


def read(data):
    """the header's languages and the pairs of a memory"""
    root = ET.fromstring(data)
    h = root.find('header')
    lang = '{http://www.w3.org/XML/1998/namespace}lang'
    if root.tag != 'tmx' or h is None or [e.tag for e in root] != ['header', 'body']:
        raise ValueError('no TMX document')

    def seg(e):
        return (e.text or '') + ''.join('<%s/>' % x.tag + (x.tail or '') for x in e)
    tus = []
    for tu in root.find('body'):
        tuvs = list(tu)
        if tu.tag != 'tu' or [x.tag for x in tuvs] != ['tuv', 'tuv'] or [y.tag for x in tuvs for y in x] != ['seg', 'seg']:
            raise ValueError('strange unit ' + ET.tostring(tu, encoding='unicode'))
        tus.append([(x.get(lang), seg(x[0])) for x in tuvs])
    return (h.get('srclang'), h.get('adminlang'), h.get('segtype')), tus


def check(chk, n, maxa, maxb, limit=3):
    r = chk.rng
    tool = vt.vbuild.build('apertium-tmxbuild')['apertium-tmxbuild']
    wp, cp = os.path.join(chk.tmp, 'w.ndjson'), os.path.join(chk.tmp, 'c.ndjson')
    vt.write_ndjson(wp, [{'pa': [list(x) for x in PA], 'pb': [list(x) for x in PB], 'letters': LETTERS, 'wide': WIDE, 'order': ORDER}])
    given = [texts(r) for _ in range(n)]
    given = [g for g in given if len(g[0]) < 260 and len(g[1]) < 260]
    vt.write_ndjson(cp, [{'a': list(a), 'b': list(b)} for a, b in given])
    t = vt.tlc('MCTmxBuild', CFG % (maxa, maxb), env={'WORDS': wp, 'CASES': cp}, timeout=850)
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated + t.trace[-3000:])
    chk.add_tlc(t)
    cs = sorted(vt.tlc_cases(t), key=lambda c: (c['g'], c['a'], c['b']))
    if sum(c['g'] > 0 for c in cs) != len(given) or any(not c['o'] for c in cs):
        raise CheckError('TLC evaluated %d of %d texts' % (sum(c['g'] > 0 for c in cs), len(given)))
    seen, cases = set(), []
    for c in cs:
        if (c['a'], c['b']) not in seen:
            seen.add((c['a'], c['b']))
            cases.append(c)
    chk.extra['text_pairs'] = len(cases)
    chk.extra['with_units'] = sum(any(c['o']) for c in cases)
    chk.extra['with_one_memory'] = sum(len(c['o']) == 1 for c in cases)
    jobs = [(k, c, r.choice([('en', 'es'), ('en', 'es'), ('sr-Latn', 'eu')]), r.random() < .15) for k, c in enumerate(cases)]

    def one(j):
        k, c, langs, tofile = j
        base = os.path.join(chk.tmp, 't%d' % k)
        for s, x in (('a', c['a']), ('b', c['b'])):
            with open(base + s, 'w', encoding='utf-8', newline='') as fd:
                fd.write(x)
        cmd = [tool, langs[0], langs[1], base + 'a', base + 'b'] + ([base + 'o'] if tofile else [])
        q = vt.run(cmd, timeout=20)
        out = q.out
        if tofile:
            out = open(base + 'o', 'rb').read() if os.path.exists(base + 'o') else b''
        for s in 'abo':
            if os.path.exists(base + s):
                os.unlink(base + s)
        why = None
        if q.rc != 0:
            why = 'exit %s' % q.rc
        elif tofile and q.out:
            why = 'with an output file, standard output has %r' % q.out[:80]
        else:
            try:
                head, tus = read(out)
                if head != langs + ('sentence',):
                    why = 'header %r' % (head,)
                elif any((x[0][0], x[1][0]) != langs for x in tus):
                    why = 'languages of the units %r' % tus[:2]
                elif [[x[0][1], x[1][1]] for x in tus] not in c['o']:
                    why = 'units %r, specified %r' % ([[x[0][1], x[1][1]] for x in tus], c['o'][:3])
            except Exception as ex:
                why = 'no memory: %s: %r' % (ex, out[-300:])
        return why and (why, cmd, c)

    bad = 0
    for x in vt.pmap(one, jobs):
        if x is None:
            chk.traces += 1
            continue
        if bad < limit and one((999999, x[2], ('en', 'es'), False)) is None and 'output file' not in x[0] and 'o' != x[1][-1][-1:]:
            continue
        bad += 1
        if bad <= limit:
            chk.violation('tmxbuild on %r and %r: %s' % (x[2]['a'], x[2]['b'], x[0]), {'cmd': x[1], 'a': x[2]['a'], 'b': x[2]['b'], 'expected': x[2]['o']})
    for c in cases[-200:]:
        chk.sample('%r | %r -> %r' % (c['a'][:80], c['b'][:80], c['o'][0][:2]))
