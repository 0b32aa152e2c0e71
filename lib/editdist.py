"""apertium-editdist against specs/EditDist.tla (C33)."""
import os, heapq, struct
import vt
import trees

CheckError = vt.CheckError
CFG = 'INIT Init\nNEXT Next\nCONSTANTS MaxLen = %d\nINVARIANTS Counts Symmetric Reaches Grows Dump\n'
NEVER = 1000000000
SYMS = ['a', 'b', 'é', 'ch', '<n>', '+']
ONE = ['a', 'b', 'é', '+', 'c']


def config(r, pairs):
    """an alphabet and what to give the command for it"""
    d = r.choice([1, 1, 2, 2, 3, 3, 4])
    swap = r.random() < .5
    elim = r.random() < .6
    byfile = r.random() < .6
    weighted = byfile and r.random() < .6
    if elim and d > 2:
        weighted = False
    n = r.choice([1, 2, 2, 2, 3]) if d < 4 else 2
    syms = r.sample(SYMS if byfile else ONE, n)
    out = []
    c = {'alphabet': [[s, r.choice([0, 0, 250, 500, 1000, 2500]) if weighted else 0] for s in syms], 'subs': [], 'swaps': [], 'out': out, 'd': d, 'swap': swap}
    lines, args = [], []
    if byfile:
        lines = [s + ('\t%g' % (w / 1000) if w or r.random() < .2 else '') for s, w in c['alphabet']]
        if r.random() < .3:
            lines.insert(r.randint(0, len(lines)), '## a comment')
        if r.random() < .2:
            lines.insert(r.randint(0, len(lines)), '')
        if r.random() < .3:
            x = r.choice(ONE)
            out.append(x)
            lines.insert(r.randint(0, len(lines)), '~' + x)
        if weighted:
            spec = []
            for _ in range(r.randint(0, 4)):
                f, t = r.choice(syms + ['']), r.choice(syms + [''])
                w = r.choice([0, 300, 700, 1500, 4000])
                if f != t:
                    c['subs'].append([f, t, w])
                    spec.append('%s\t%s\t%g' % (f or '@0@', t or '@0@', w / 1000))
            for _ in range(r.randint(0, 3) if swap and n > 1 else 0):
                f, t = r.sample(syms, 2)
                w = r.choice([0, 300, 700, 1500])
                c['swaps'].append([f, t, w])
                spec.append('%s,%s\t%s,%s\t%g' % (f, t, t, f, w / 1000))
            r.shuffle(spec)
            # the first of two weights for the same counts: keep the order of the lists
            c['subs'] = [[f, t, w] for s in spec if ',' not in s for f, t, w in [trip(s)]]
            c['swaps'] = [[f, t, w] for s in spec if ',' in s for f, t, w in [trip(s)]]
            if spec:
                lines += ['@@'] + spec
        more = [s for s in r.sample(ONE, 1) if r.random() < .2 and s not in syms]
        c['alphabet'] += [[s, 0] for s in more]
        args = more
    else:
        args = [''.join(syms)] if r.random() < .7 else syms
    c['xs'] = sorted(set(s for s, _ in c['alphabet']) | {'?'} | set(out))[:4]
    c['ys'] = sorted(set(s for s, _ in c['alphabet']) | set(out))[:3]
    opt = [['-d', str(d)], ['--distance=%d' % d]][r.randrange(2)] if d > 1 or r.random() < .5 else []
    opt += [r.choice(['-s', '--swap'])] if swap else []
    opt += [] if elim else ['--no-elim']
    eps = '@0@'
    if not lines and r.random() < .3:
        eps = '<eps>'
        opt += r.choice([['-e', eps], ['--epsilon', eps]])
    binary = None
    if r.random() < .25:
        # the symbols of a binary transducer: those of one character that are no white space
        more = r.sample(ONE, r.randint(1, 2))
        have = set(a for a, _ in c['alphabet'])
        if len(have | set(more)) > (3 if d < 4 else 2):
            more = [r.choice(sorted(a for a in have if len(a) == 1) or ONE)]
        c['alphabet'] += [[a, 0] for a in more if a not in have]
        syms = more + r.sample(['@_EPSILON_SYMBOL_@', '<x>', ' ', 'ab', '\t'], r.randint(0, 3))
        r.shuffle(syms)
        head = b'HFST\0' + struct.pack('<H', 9) + b'\0' + b'type\0OL\0\0' if r.random() < .5 else b''
        binary = head + struct.pack('<HH', r.choice([0, 1, len(syms)]), len(syms)) + b'\1' * 52 + b''.join(a.encode() + b'\0' for a in syms) + b'\7\0' * 20
        if not byfile and r.random() < .5 and len(set(args)) == len(args):
            # nothing but the binary
            c['alphabet'] = [[a, 0] for a in more]
            args = []
        c['xs'] = sorted(set(s for s, _ in c['alphabet']) | {'?'} | set(out))[:4]
        c['ys'] = sorted(set(s for s, _ in c['alphabet']) | set(out))[:3]
    # longer words, one made of the other by about d edits
    c['pairs'] = []
    for _ in range(pairs):
        x = [r.choice(c['xs'] if r.random() < .3 else c['ys']) for _ in range(r.choice([2, 3, 4, 5, 6, 8]))]
        y = list(x)
        for _ in range(max(1, d + r.choice([-1, 0, 0, 0, 1, 1]))):
            e = r.choice('idsww' if swap else 'ids')
            i = r.randint(0, len(y))
            if e == 'i':
                y.insert(i, r.choice(c['ys']))
            elif e == 'd':
                y[i:i + 1] = []
            elif e == 's' and i < len(y):
                y[i] = r.choice(c['ys'])
            elif i + 1 < len(y):
                y[i:i + 2] = [y[i + 1], y[i]]
        c['pairs'].append([x, y])
    if d > 2:
        for _ in range(pairs // 2):
            # no more insertions than can be
            x = [r.choice(c['ys']) for _ in range(r.randint(0, 4))]
            y = list(x)
            for _ in range(r.choice([0, 1]) if swap else 0):
                if len(y) > 1:
                    i = r.randrange(len(y) - 1)
                    y[i:i + 2] = [y[i + 1], y[i]]
            for _ in range(r.choice([d - 1, d])):
                y.insert(r.randint(0, len(y)), r.choice(c['ys']))
            c['pairs'].append([x, y] if r.random() < .5 else [y, x])
    if d > 1:
        for _ in range(pairs * (d - 1)):
            # edits one after the other, one more or fewer than can be
            x, y = [], []
            kinds = r.choice(['isw', 'dsw', 'iw', 'dw', 'is', 'ds', 'isdw', 'w'] if swap else ['is', 'ds', 'isd', 'i', 'd'])
            for _ in range(d + r.choice([0, 1, 1])):
                while r.random() < .3:
                    a = r.choice(c['ys'])
                    x.append(a)
                    y.append(a)
                e, a, b = r.choice(kinds), r.choice(c['ys']), r.choice(c['ys'])
                x += {'i': [], 'd': [a], 's': [a], 'w': [a, b]}[e]
                y += {'i': [a], 'd': [], 's': [b], 'w': [b, a]}[e]
            if len(x) < 10 and len(y) < 10:
                c['pairs'].append([x, y])
    r.shuffle(opt) if all(x.startswith('-') and '=' in x or x in ('-s', '--swap', '--no-elim') for x in opt) else None
    return c, opt, args, '\n'.join(lines) + '\n' if lines else None, eps, elim, binary


def trip(s):
    f, t, w = s.split('\t')
    w = round(float(w) * 1000)
    if ',' in f:
        a, b = f.split(',')
        return a, b, w
    return ('' if f == '@0@' else f), ('' if t == '@0@' else t), w


def parse(text, eps):
    arcs, final = {}, {}
    for line in text.split('\n'):
        if not line:
            continue
        p = line.split('\t')
        if len(p) == 2:
            final[int(p[0])] = round(float(p[1]) * 1000)
        elif len(p) == 5:
            f, t = [('' if s == eps else '?' if s == '@_UNKNOWN_SYMBOL_@' else s) for s in p[2:4]]
            arcs.setdefault(int(p[0]), []).append((int(p[1]), f, t, round(float(p[4]) * 1000)))
        else:
            raise ValueError('strange line %r' % line)
    return arcs, final


def weights(arcs, final, x, maxlen, ys):
    """the least weight of every word of up to maxlen symbols the transducer makes of x"""
    best, heap, res = {(0, 0, ()): 0}, [(0, 0, 0, ())], {}
    while heap:
        w, s, i, y = heapq.heappop(heap)
        if best[(s, i, y)] < w:
            continue
        if i == len(x) and s in final:
            res[y] = min(res.get(y, NEVER), w + final[s])
        for to, f, t, v in arcs.get(s, ()):
            if f and (i == len(x) or x[i] != f):
                continue
            y2 = y + ((t,) if t else ())
            if len(y2) > maxlen or (t and t not in ys):
                continue
            k = (to, i + (1 if f else 0), y2)
            if w + v < best.get(k, NEVER):
                best[k] = w + v
                heapq.heappush(heap, (w + v,) + k)
    return res


def weight_of(arcs, final, x, y):
    best, heap = {(0, 0, 0): 0}, [(0, 0, 0, 0, False)]
    res = NEVER
    while heap:
        w, s, i, j, end = heapq.heappop(heap)
        if end:
            return w
        if best[(s, i, j)] < w:
            continue
        if i == len(x) and j == len(y) and s in final:
            heapq.heappush(heap, (w + final[s], s, i, j, True))
        for to, f, t, v in arcs.get(s, ()):
            if f and (i == len(x) or x[i] != f) or t and (j == len(y) or y[j] != t):
                continue
            k = (to, i + (1 if f else 0), j + (1 if t else 0))
            if w + v < best.get(k, NEVER):
                best[k] = w + v
                heapq.heappush(heap, (w + v,) + k + (False,))
    return res


def check(chk, n, maxlen, pairs, limit=3):
    r = chk.rng
    sc = trees.Scripts(chk)
    cp = os.path.join(chk.tmp, 'c.ndjson')
    confs = [config(r, pairs) for _ in range(n)]
    vt.write_ndjson(cp, [c[0] for c in confs])
    t = vt.tlc('MCEditDist', CFG % maxlen, env={'CASES': cp}, timeout=850)
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated + t.trace[-3000:])
    chk.add_tlc(t)
    by = {}
    for c in vt.tlc_cases(t):
        by.setdefault(c['g'], []).append(c)
    if len(by) != n:
        raise CheckError('TLC evaluated %d of %d alphabets' % (len(by), n))
    chk.extra['alphabets'] = n
    chk.extra['word_pairs'] = sum(len(c['o']) for cs in by.values() for c in cs)

    def one(j):
        k, (c, opt, args, text, eps, elim, binary), cs = j
        a = list(opt)
        if text is not None:
            p = os.path.join(chk.tmp, 'f%d' % k)
            open(p, 'w', encoding='utf-8').write(text)
            a += ['-i', p]
        if binary is not None:
            p = os.path.join(chk.tmp, 'b%d' % k)
            open(p, 'wb').write(binary)
            a += ['-a', p]
        a += args
        q = vt.run(sc.cmd('apertium-editdist', *a), timeout=60, env=dict(os.environ, LC_ALL='C.UTF-8'))
        if q.rc != 0:
            return 'exit %s: %s' % (q.rc, q.err[-200:]), c, a, text
        try:
            arcs, final = parse(q.text, eps)
        except ValueError as ex:
            return str(ex), c, a, text
        loose = elim and c['d'] > 2     # what a deletion and an insertion next to each other could do is left out
        for s in cs:
            got = weights(arcs, final, s['x'], maxlen, set(c['ys'])) if len(s['o']) > 1 else None
            for y, w in s['o']:
                g = got.get(tuple(y), NEVER) if got is not None else weight_of(arcs, final, s['x'], y)
                if g != w and not (loose and y == s['x']):
                    return '%r becomes %r at %s, specified %s' % (' '.join(s['x']), ' '.join(y), g / 1000, w / 1000), c, a, text
        return None

    bad = 0
    for x in vt.pmap(one, [(k, confs[k], by[k + 1]) for k in range(n)]):
        if x is None:
            chk.traces += 1
            continue
        bad += 1
        if bad <= limit:
            chk.violation('editdist %s with %r: %s' % (' '.join(x[2]), x[3], x[0]), {'args': x[2], 'file': x[3], 'config': x[1]})
    for c in confs[-100:]:
        chk.sample('%s %r' % (' '.join(c[1] + c[2]), c[3]))
