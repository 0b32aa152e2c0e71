"""apertium-adapt-docx against specs/DocxRuns.tla (C25)."""
import os, re
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape
import vt

CheckError = vt.CheckError
LETTERS = 'abllLéßЖ中x'
OTHER = ' -·-·1.&<"\''
#: other content of a paragraph: as written, as it must come out
STAY = [('<w:r><w:tab/></w:r>',) * 2, ('<w:r><w:rPr><w:b/></w:rPr><w:br/></w:r>',) * 2, ('<w:hyperlink r="1"><w:r><w:t>z</w:t></w:r></w:hyperlink>',) * 2,
        ('<w:r><w:t>a</w:t><w:t>b</w:t></w:r>',) * 2, ('<w:r><w:drawing><x>q</x></w:drawing></w:r>',) * 2, ('<w:ins><w:r><w:t>new</w:t></w:r></w:ins>',) * 2, ('<w:br/>',) * 2, ('<w:fld><w:t>1</w:t></w:fld>',) * 2,
        ('<w:r><w:pict><w:p><w:r><w:t>ab</w:t></w:r><w:r><w:t>c d</w:t></w:r></w:p></w:pict></w:r>', '<w:r><w:pict><w:p><w:r><w:t>abc</w:t></w:r><w:r><w:t xml:space="preserve"> d</w:t></w:r></w:p></w:pict></w:r>')]
THIN = ['<w:proofErr w:type="s"/>', '<w:bookmarkStart w:id="0"/>', '<w:bookmarkEnd w:id="0"/>', '<w:r><w:rPr><w:i/></w:rPr></w:r>', '<w:r/>', '<!--c-->', '\n  ', '<w:commentRangeStart w:id="1"/>', '<w:r><w:lastRenderedPageBreak/></w:r>']
PRE = ['<w:tab/>', '<w:br/>', '<w:drawing/>', '<w:sym w:char="F0"/>']


def rand_par(r):
    p = []
    for _ in range(r.randint(1, 9)):
        x = r.random()
        if x < .8 or not p:
            t = ''.join(r.choice(LETTERS if r.random() < .65 else OTHER) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9])))
            pre = r.random() < .06
            p.append({'k': 'run', 't': list(t), 'pre': pre, 'post': not pre and r.random() < .06})
        else:
            p.append({'k': 'thin' if x < .92 else 'stay'})
    return p


def render(p, out, r):
    """the paragraph as written and as specified; the same forms in both"""
    a, b = '', ''
    for i, (x, y) in enumerate(zip(p, out)):
        if x['k'] == 'stay':
            u, v = r.choice(STAY)
        elif x['k'] == 'thin':
            u = v = r.choice(THIN)
        else:
            rp = r.choice(['', '', '<w:rPr><w:b/></w:rPr>', '<w:rPr><w:sz w:val="%d"/></w:rPr>' % r.randint(1, 9)])
            head = '<w:r n="%d">' % i + rp + (r.choice(PRE) if x['pre'] else r.choice(['', '', '', '<w:lastRenderedPageBreak/>']))
            tail = (r.choice(PRE) if x['post'] else '') + '</w:r>'
            t = ''.join(x['t'])
            plain = t == t.strip(' ') and r.random() < .7
            pad = r.choice(['', '', '', ' ', '  ']) if plain else ''
            u = head + '<w:t%s>%s</w:t>' % ('' if plain else ' xml:space="preserve"', pad + escape(t) + pad) + tail
            if not t and r.random() < .5:
                u = head + '<w:t/>' + tail
            if y['k'] == 'gone':
                v = ''
            elif y['k'] == 'rest':
                v = head + tail
            else:
                v = head + '<w:t xml:space="preserve">%s</w:t>' % escape(''.join(y['t'])) + tail
        a += u
        b += v
    at = r.choice(['', ' w:rsid="1"'])
    ppr = r.choice(['', '', '<w:pPr><w:rPr><w:b/></w:rPr></w:pPr>'])
    return '<w:p%s>' % at + ppr + a + '</w:p>', '<w:p%s>' % at + ppr + b + '</w:p>'


def document(pars, r):
    """pars: (written, specified) pairs"""
    out = []
    shape = [r.choice(['%s', '%s', '%s', '<w:tbl><w:tr><w:tc>%s</w:tc></w:tr></w:tbl>', '\n%s\n\n', '<w:sect a="&lt;p&gt;">%s</w:sect>', '<!-- <w:p> -->%s']) for _ in pars]
    pre = r.choice(['w', 'a', 'x'])
    enc = r.choice(['<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n', '<?xml version="1.0" encoding="UTF-8"?>\n'])
    for k in (0, 1):
        body = ''.join(s % q[k].replace('%', '%%') if '%' in q[k] else s % q[k] for s, q in zip(shape, pars))
        d = '<w:document xmlns:w="urn:w"><w:body>%s</w:body></w:document>\n' % body
        out.append(enc + d.replace('<w:', '<' + pre + ':').replace('</w:', '</' + pre + ':').replace('xmlns:w', 'xmlns:' + pre).replace(' w:', ' ' + pre + ':'))
    return out


def normal(text, pretty=False):
    """the document by its meaning: text of t without the blanks that do not count"""
    root = ET.fromstring(text.encode('utf-8'), parser=ET.XMLParser(target=ET.TreeBuilder(insert_comments=True)))
    sp = '{http://www.w3.org/XML/1998/namespace}space'
    for e in root.iter():
        if isinstance(e.tag, str) and e.tag.endswith('}t'):
            if e.attrib.pop(sp, 'default') != 'preserve':
                e.text = (e.text or '').strip(' ')
            e.text = e.text or None
        elif pretty and e.text is not None and not e.text.strip():
            e.text = None
        if e.tail is not None:
            e.tail = None if pretty and not e.tail.strip() else re.sub('[\r\n]+', ' ', e.tail)
        if e.text is not None and not (isinstance(e.tag, str) and e.tag.endswith('}t')):
            e.text = re.sub('[\r\n]+', ' ', e.text)
    return ET.tostring(root, encoding='unicode')


def check(chk, n, maxlen, limit=3):
    r = chk.rng
    tool = vt.vbuild.build('apertium-adapt-docx')['apertium-adapt-docx']
    cp = os.path.join(chk.tmp, 'docx.ndjson')
    vt.write_ndjson(cp, [{'p': rand_par(r)} for _ in range(n)])
    t = vt.tlc('MCDocxRuns', 'INIT Init\nNEXT Next\nCONSTANTS Alpha <- AlphaC\n MaxLen = %d\nINVARIANTS SameText NoCut LeftOnly Again Dump\n' % maxlen, env={'CASES': cp}, timeout=800)
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated + t.trace[-3000:])
    chk.add_tlc(t)
    cs = sorted(vt.tlc_cases(t), key=lambda c: (c['g'], str(c['p'])))
    if sum(c['g'] > 0 for c in cs) != n:
        raise CheckError('TLC evaluated %d of %d paragraphs' % (sum(c['g'] > 0 for c in cs), n))
    chk.extra['paragraphs'] = len(cs)
    r.shuffle(cs)
    docs = []
    for a in range(0, len(cs), 40):
        pars = [render(c['p'], c['o'], r) for c in cs[a:a + 40]]
        w, s = document(pars, r)
        path = os.path.join(chk.tmp, 'd%d.xml' % len(docs))
        with open(path, 'w', encoding='utf-8', newline='') as fd:
            fd.write(w)
        docs.append((path, w, s, pars))
    # several documents at a time from standard input, one with -f, pretty or not, with names or without
    jobs, i = [], 0
    while i < len(docs):
        k = r.choice([1, 1, 2, 3, 5])
        jobs.append((docs[i:i + k], r.random() < .5, r.random() < .25, k == 1 and r.random() < .5))
        i += k

    def one(j):
        ds, name, pretty, f = j
        cmd = [tool] + (['-n'] if name else []) + (['-p'] if pretty else []) + (['-f', ds[0][0]] if f else [])
        q = vt.run(cmd, '' if f else ''.join(d[0] + ('\n' if len(d[0]) % 2 else ' ') for d in ds), timeout=60)
        if q.rc != 0 or not q.text.endswith('\n\0'):
            return cmd, ds[0], 'exit %s, output ends %r' % (q.rc, q.text[-40:]), q
        parts, rest = [], q.text[:-1]
        if not pretty:
            parts = rest.split('\n')[:-1]
        else:
            parts = [x if m == 0 else '<?xml' + x for m, x in enumerate(rest.split('<?xml'))][1:]
            if name:
                parts = [re.sub(r'<file name="[^"]*"/> $', '', x.rstrip('\n')) for x in parts]
                names = re.findall(r'<file name="([^"]*)"/> <\?xml', rest)
                if names != [d[0] for d in ds]:
                    return cmd, ds[0], 'names %r' % names, q
        if len(parts) != len(ds):
            return cmd, ds[0], '%d lines for %d documents' % (len(parts), len(ds)), q
        for d, x in zip(ds, parts):
            if name and not pretty:
                h = '<file name="%s"/> ' % d[0]
                if not x.startswith(h):
                    return cmd, d, 'no name before %r' % x[:60], q
                x = x[len(h):]
            try:
                got = normal(x, pretty)
            except ET.ParseError as e:
                return cmd, d, 'not a document any more: %s' % e, q
            if got != normal(d[2], pretty):
                ga, wa = got.split('<ns0:p'), normal(d[2], pretty).split('<ns0:p')
                k = next((k for k in range(min(len(ga), len(wa))) if ga[k] != wa[k]), min(len(ga), len(wa)) - 1)
                return cmd, d, 'paragraph %r instead of %r' % (ga[k], wa[k]), q
        return None
    bad = 0
    for j, b in zip(jobs, vt.pmap(one, jobs)):
        if b is None:
            chk.traces += sum(len(d[3]) for d in j[0])
            continue
        bad += 1
        if bad <= limit:
            cmd, d, why, q = b
            chk.violation('adapt-docx %s: %s' % (' '.join(cmd[1:]), why), {'cmd': cmd, 'document': d[1], 'specified': d[2], 'observed': q.text})
    chk.sample({'paragraph': [''.join(x.get('t', ['<' + x['k'] + '>'])) for x in cs[0]['p']], 'adapted': [''.join(x.get('t', ['<' + x['k'] + '>'])) for x in cs[0]['o']]})
