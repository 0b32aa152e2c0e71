"""Training of the HMM and sliding-window taggers against specs/MCTraining.tla (C20)."""
import itertools, os
import vt
import tagger as T

CheckError = vt.CheckError
ZERO = 1e-10


def evaluate(chk, sets, cases, timeout=800, chunk=4000):
    sp, cp = os.path.join(chk.tmp, 'trsets.ndjson'), os.path.join(chk.tmp, 'trcases.ndjson')
    rows = []
    for s in sets:
        nr = {l['name']: 7 + i for i, l in enumerate(s['labels'])}
        rows.append({'names': ['TAG_' + b for b in T.BUILTIN] + [l['name'] for l in s['labels']], 'labels': [{'pats': l['pats'], 'closed': l['closed']} for l in s['labels']], 'prefer': s['prefer'], 'discard': s['discard'],
                     'forbid': [[nr[a], nr[b]] for a, b in s['forbid']], 'enforce': [{'a': nr[a], 'b': [nr[b] for b in bs]} for a, bs in s['enforce']]})
    vt.write_ndjson(sp, rows)
    want = {}
    for a in range(0, len(cases), chunk):
        vt.write_ndjson(cp, [{k: c[k] for k in ('ts', 'mode', 'dic', 'crp', 'tagged', 'raw')} for c in cases[a:a + chunk]])
        t = vt.tlc('MCTraining', 'INIT Init\nNEXT Next\nINVARIANTS DomainOK ClassesOK Conserved Dump\n', env={'SETS': sp, 'CASES': cp}, timeout=timeout)
        if t.violated:
            raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace[:6000])
        chk.add_tlc(t)
        for x in vt.tlc_cases(t):
            want[a + x['c'] - 1] = x
    if len(want) != len(cases):
        raise CheckError('TLC evaluated %d of %d cases' % (len(want), len(cases)))
    return want


# the arithmetic TLC has no numbers for -------------------------------------------------
def norm(row):
    s = sum(row)
    return [x / s for x in row]


def rules(A, bad):
    A = [list(r) for r in A]
    for i, j in bad:
        A[i][j] = ZERO
    return [norm(r) for r in A]


def reestimate(A, B, cl, st):
    """expected numbers of transitions and of tags for classes, over all the paths of every stretch"""
    n = len(A)
    xsi, phi = {}, {}
    for s in st:
        ps = []
        for p in itertools.product(*[q['T'] for q in s['qs']]):
            w, a = 1.0, s['t0']
            for t, q in zip(p, s['qs']):
                w *= A[a][t] * B[t].get(q['k'] - 1, 0.0)
                a = t
            ps.append((p, w))
        tot = sum(w for _, w in ps)
        if tot < 1e-200:
            raise CheckError('a stretch without probability')
        for p, w in ps:
            a = s['t0']
            for t, q in zip(p, s['qs']):
                xsi[a, t] = xsi.get((a, t), 0) + w / tot
                phi[t, q['k'] - 1] = phi.get((t, q['k'] - 1), 0) + w / tot
                a = t
    gam = {}
    for (t, k), w in phi.items():
        gam[t] = gam.get(t, 0) + w
    g = lambda i: gam.get(i, 1e-300)
    A2 = [norm([xsi[i, j] / g(i) if (i, j) in xsi else ZERO for j in range(n)]) for i in range(n)]
    B2 = []
    for i in range(n):
        ks = [k for k in range(len(cl)) if i in cl[k]]
        v = norm([phi[i, k] / g(i) if (i, k) in phi else ZERO for k in ks])
        B2.append(dict(zip(ks, v)))
    return A2, B2


def retrain(A, B, w, n, st):
    for _ in range(n):
        A, B = reestimate(A, B, w['cl'], st)
    return rules(A, w['bad']), B


def lsw_init(w):
    D = {}
    for t in w['r']['D']:
        for x in t['ok']:
            D[tuple(x)] = D.get(tuple(x), 0) + t['n'] / len(t['ok'])
    return D


def lsw_train(D, w, n):
    for _ in range(n):
        E = {}
        for t in w['r']['D']:
            s = sum(D.get(tuple(x), 0) for x in t['all'])
            if s > ZERO:
                for x in t['all']:
                    v = D.get(tuple(x), 0)
                    if v:
                        E[tuple(x)] = E.get(tuple(x), 0) + t['n'] * v / s
        D = E
    return D


def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def compare(d, w, mode, m, tol=1e-7):
    """first difference between a parsed model file and the model it should hold"""
    if [sorted(c) for c in d['classes']] != [sorted(c) for c in w['cl']]:
        return 'classes %r, not %r' % (d['classes'], [sorted(c) for c in w['cl']])
    if mode == 'lsw':
        for x in sorted(set(d['D']) | set(m)):
            if not close(d['D'].get(x, 0.0), m.get(x, 0.0), tol):
                return 'D%r is %r, not %r' % (x, d['D'].get(x, 0.0), m.get(x, 0.0))
        return None
    A, B = m
    if d['N'] != len(A) or d['M'] != len(w['cl']):
        return 'dimensions %d, %d' % (d['N'], d['M'])
    for i in range(len(A)):
        for j in range(len(A)):
            if not (close(d['A'][i][j], A[i][j], tol) and d['A'][i][j] >= 0):
                return 'the probability of tag %d after tag %d is %r, not %r' % (j, i, d['A'][i][j], A[i][j])
    for i in range(len(A)):
        for k in range(len(w['cl'])):
            if not close(d['B'].get((i, k), 0.0), B[i].get(k, 0.0), tol):
                return 'the probability of class %d for tag %d is %r, not %r' % (k, i, d['B'].get((i, k), 0.0), B[i].get(k, 0.0))
    return None


def text(units):
    return T.show({'units': units, 'tail': '\n'})


def run_all(chk, label, sets, cases, limit=3, timeout=800):
    tools = vt.vbuild.build('apertium-tagger', 'apertium-filter-ambiguity', 'apertium-tagger-apply-new-rules', 'apertium-tagger-readwords')
    tool = tools['apertium-tagger']
    want = evaluate(chk, sets, cases, timeout)
    for i, s in enumerate(sets):
        with open(os.path.join(chk.tmp, '%s-%d.tsx' % (label, i + 1)), 'w') as fd:
            fd.write(T.tsx(s))
        with open(os.path.join(chk.tmp, '%s-%d-free.tsx' % (label, i + 1)), 'w') as fd:
            fd.write(T.tsx(dict(s, forbid=(), enforce=())))

    def one(k):
        c, w = cases[k], want[k]
        d = os.path.join(chk.tmp, '%s-c%d' % (label, k))
        os.makedirs(d)
        P = lambda f: os.path.join(d, f)
        tsx = os.path.join(chk.tmp, '%s-%d%s.tsx' % (label, c['ts'], '-free' if c.get('late') else ''))
        for f in ('dic', 'crp', 'tagged', 'raw'):
            with open(P(f), 'w') as fd:
                fd.write(text(c[f]))
        lsw = c['mode'] == 'lsw'
        base = [tool] + (['-w'] if lsw else [])
        if c['mode'] == 'sup':
            cmd = base + ['-s', str(c['n'])] + [P('dic')] + ([P('raw')] if c['n'] else []) + [tsx, P('prob'), P('tagged'), P('crp')]
        else:
            cmd = base + ['-t', str(c['n'])] + [P('dic'), P('crp'), tsx, P('prob')]
        bad = []
        files = {f: open(P(f)).read() for f in ('dic', 'crp', 'tagged', 'raw')}

        def fail(what, cm=cmd):
            bad.append((cm, what, dict(files, tsx=open(tsx).read())))
        r = vt.run(cmd, timeout=30)
        if w['refused']:
            if r.rc == 0 or r.rc < 0 or os.path.exists(P('prob')):
                fail('the corpus is not one for this dictionary, but the exit status is %s, model written: %s' % (r.rc, os.path.exists(P('prob'))))
            return bad
        if r.rc != 0 or not os.path.exists(P('prob')):
            fail('exit status %s: %s' % (r.rc, r.err[-300:]))
            return bad
        first = open(P('prob'), 'rb').read()
        got = T.parse_prob(first, lsw)
        badpairs = [] if c.get('late') else w['bad']
        wl = dict(w, bad=badpairs)
        if lsw:
            m = lsw_train(lsw_init(w), w, c['n'])
        else:
            A = rules([norm(x) for x in w['r']['A']], badpairs)
            B = []
            for row in w['r']['B']:
                s = sum(x for _, x in row)
                B.append({k - 1: x / s for k, x in row})
            m = (A, B)
            if c['mode'] == 'uns' or c['n']:
                m = retrain(A, B, wl, c['n'], w['r']['st'])
        diff = compare(got, w, c['mode'], m)
        if diff:
            fail(diff)
        elif not lsw and c.get('late'):
            # the rules of the tagset are put into the finished model
            cm = [tools['apertium-tagger-apply-new-rules'], '-i', P('prob'), '-o', P('prob2'), '-x', os.path.join(chk.tmp, '%s-%d.tsx' % (label, c['ts']))]
            r = vt.run(cm, timeout=30)
            if r.rc != 0 or not os.path.exists(P('prob2')):
                fail('exit status %s: %s' % (r.rc, r.err[-300:]), cm)
            else:
                g2 = T.parse_prob(open(P('prob2'), 'rb').read())
                diff = compare(g2, w, c['mode'], (rules(m[0], w['bad']), m[1]))
                nr = {l['name']: 7 + i for i, l in enumerate(sets[c['ts'] - 1]['labels'])}
                fb = [(nr[a], nr[b]) for a, b in sets[c['ts'] - 1]['forbid']]
                if diff or g2['forbid'] != fb:
                    fail(diff or 'forbidden pairs %r, not %r' % (g2['forbid'], fb), cm)
        if not bad and c.get('again'):
            # train the finished model further
            cm = base + ['-r', str(c['again']), P('crp' if lsw else 'raw'), P('prob')]
            r = vt.run(cm, timeout=30)
            if lsw:
                m2 = lsw_train(m, w, c['again'])
            else:
                m2 = retrain(m[0], m[1], wl, c['again'], w['r']['st'])
            g3 = T.parse_prob(open(P('prob'), 'rb').read(), lsw) if r.rc == 0 else None
            diff = compare(g3, w, c['mode'], m2, 1e-6) if g3 else 'exit status %s: %s' % (r.rc, r.err[-300:])
            if g3 and not diff and (g3['_prefix'], g3['_suffix']) != (got['_prefix'], got['_suffix']):
                diff = 'the tagset in the model file has changed'
            if diff:
                fail(diff, cm)
        if not bad:
            cm = [tools['apertium-filter-ambiguity'], tsx, P('dic')]
            r = vt.run(cm, timeout=30)
            if r.rc != 0 or r.text != w['fa']:
                fail('exit status %s, output %r, not %r' % (r.rc, r.text, w['fa']), cm)
        if not bad:
            # the words of the text as the tagger sees them; of a trained model too, or the first few
            few = k % 3 and 1 + k % (len(w['ls']) + 1)
            opt = [['-l', str(few)], ['--clength', str(few)]][k % 2] if few else []
            opt += [['-x', tsx], ['-p', P('prob')], ['--tsxfile', tsx], ['--probfile', P('prob')]][k % 4 if not lsw else k // 2 % 2 * 2]
            cm = [tools['apertium-tagger-readwords']] + opt
            r = vt.run(cm, open(P('crp'), 'rb').read(), timeout=30)
            ls = w['ls'][:few] if few else w['ls']
            if r.rc != 0 or r.text != ''.join(x + '\n' for x in ls) or b'%d were readed' % len(ls) not in r.err:
                fail('exit status %s, output %r, not %r; %r' % (r.rc, r.text, ls, r.err[-100:]), cm)
        for f in ('dic', 'crp', 'tagged', 'raw', 'prob', 'prob2'):
            if os.path.exists(P(f)):
                os.unlink(P(f))
        return bad
    n = 0
    for bad in vt.pmap(one, range(len(cases))):
        if not bad:
            chk.traces += 1
        for cm, what, fs in bad:
            n += 1
            if n <= limit:
                chk.violation('%s %s: %s' % (label, ' '.join(os.path.basename(x) for x in cm), what), {'cmd': cm, 'files': fs, 'what': what})
    chk.extra['refused_' + label] = sum(1 for w in want.values() if w['refused'])
    return want


# --------------------------------------------------------------------------- material
def with_rules(r, s, kind):
    """kind: 0 no rules, 1 forbidden pairs, 2 enforcement, 3 both"""
    names = [l['name'] for l in s['labels']]
    fb = list(dict.fromkeys((r.choice(names), r.choice(names)) for _ in range(r.randint(1, 4) if kind & 1 else 0)))
    en = [(a, r.sample(names, r.randint(1, min(3, len(names))))) for a in r.sample(names, r.randint(1, min(2, len(names))) if kind & 2 else 0)]
    return dict(s, forbid=fb, enforce=en)


def strip(u):
    return {k: u[k] for k in ('bl', 'surf', 'unk', 'anas')}


def usable(s, u):
    return True


def tagged_of(r, units, break_=None):
    o = []
    for u in units:
        if u['unk'] or len(u['anas']) == 0:
            o.append(u)
        elif r.random() < .08:
            o.append(dict(u, unk=True, anas=[]))        # not known to the one who tagged
        else:
            o.append(dict(u, anas=[r.choice(u['anas'])]))
    return o


def make_case(r, ts, voc, mode, lo, hi, n=0, **kw):
    known = [u for u in voc]
    dic = [r.choice(known) for _ in range(r.randint(2, 14))]
    crp = [r.choice(dic if r.random() < .93 else known) for _ in range(r.randint(lo, hi))]
    raw = [r.choice(dic) for _ in range(r.randint(lo, hi))] if mode == 'sup' or not n else crp
    sp = lambda us: [strip(dict(u, bl=' ')) for u in us]
    tagged = tagged_of(r, crp) if mode == 'sup' else []
    if mode == 'sup' and r.random() < .05 and tagged:
        i = r.randrange(len(tagged))
        tagged = tagged[:i] + tagged[i + 1:] if r.random() < .5 else tagged[:i] + [T.unit('zz', unk=True)] + tagged[i:]
    if mode != 'sup' and kw.get('again'):
        raw = crp
    return dict({'ts': ts, 'mode': mode, 'dic': sp(dic), 'crp': sp(crp), 'tagged': sp(tagged), 'raw': sp(raw), 'n': n}, **kw)


def long_stretch(raw, hi=7):
    """the paths of a stretch are enumerated: no more than so many ambiguous words in a row"""
    k = 0
    for u in raw:
        k = k + 1 if u['unk'] or len(u['anas']) > 1 else 0
        if k > hi:
            return True
    return False
