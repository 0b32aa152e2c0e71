"""C27 LaTeX: the document comes back, and what is no text is not translated."""
from vt import *
import latex as L

TOOLS = ('apertium-prelatex', 'apertium-postlatex', 'apertium-postlatex-raw', 'apertium-utils-fixlatex', 'apertium-deslatex', 'apertium-relatex')


def main(chk):
    b = vbuild.build(*TOOLS)
    pre, post, raw, fix, des, rel = (b[t] for t in TOOLS)
    docs = L.docs(chk)
    tab, cf = os.path.join(chk.tmp, 'latex.json'), os.path.join(chk.tmp, 'cases.json')
    write_ndjson(tab, [L.table()])
    write_ndjson(cf, [list(d) for d in docs])
    t = tlc('MCLatex', 'INIT Init\nNEXT Next\nINVARIANTS RoundTrip Covers Modelled Dump\n', env={'LATEX': tab, 'CASES': cf}, mem='12g', timeout=800)
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace[:6000])
    exp = {}
    for c in tlc_cases(t):
        exp.setdefault(c['c'], {})[c['s']] = c['t']
        if c['s'] == 'pre':
            exp[c['c']]['vis'] = c['v']
    assert len(exp) == len(docs)
    chk.add_tlc(t)
    gawk = ['bash', fix]
    awk = ['awk', '{gsub("</CONTENTS-noeos>", "</CONTENTS>"); print;}']

    def one(k):
        d, e = docs[k - 1], exp[k]
        bad = []

        def stage(what, cmd, inp, want):
            r = run(cmd, inp)
            got = r.text if r.rc == 0 else r.text + '@EXIT %s@' % r.rc
            if got != want:
                bad.append((what, inp, want, got))
            return got
        stage('prelatex', [pre], d, e['pre'])
        stage('postlatex-raw', [raw], e['awk'], e['raw'])
        stage('postlatex', [post], e['awk'], e['post'])
        f = stage('utils-fixlatex', gawk, e['pre'], e['fix'])
        r = run([des], f)
        vis = L.letters(L.hidden_text(r.text))
        if r.rc or vis != e['vis']:
            bad.append(('deslatex shows', d, e['vis'], vis + ' from ' + r.text))
        back = run(awk, run([rel], r.out).out)
        stage('the whole chain', [raw], back.out.decode('utf-8', 'replace'), e['raw'])
        return bad
    ks = sorted(exp)
    for k, bad in zip(ks, pmap(one, ks)):
        for what, inp, want, got in bad[:1]:
            if len(chk.viol) < 3:
                chk.violation('%s: document %r: expected %r, the program gave %r' % (what, docs[k - 1], want, got),
                              {'document': docs[k - 1], 'stage': what, 'in': inp, 'expected': want, 'got': got})
    for k in ks[:3]:
        chk.sample({'document': docs[k - 1], 'stages': exp[k]})
    chk.traces += len(ks)
    chk.extra['documents'] = len(ks)
    chk.assumptions = ['documents end with a newline; environments have names of letters, digits and a star, directly in braces; \\t{oo} is left out',
                       'of what is shown to the translator the letters count']
