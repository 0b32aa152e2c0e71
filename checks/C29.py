"""C29 cut inputs: when the stage before dies, every stage ends, and what it wrote stands."""
from vt import *
import cut as U


def main(chk):
    stages, short, lng = U.streams(chk, 2, chk.n(100, 1500), chk.n(6, 9))
    B = U.Bench(chk)
    by = {}
    for s in stages:
        by.setdefault(s['in'], []).append(s)
    plans = []                    # stage, configuration, stream, cut
    for c in short + lng:
        nul = '\0' in c['txt']
        for s in by[c['kind']]:
            for i in range(len(B.S[s['tool']])):
                z = '-z' in B.S[s['tool']][i][0]
                if nul and not z:
                    continue
                if c['words'] == 2 and chk.rng.random() >= chk.n(.25, 1):
                    continue
                plans.append((s, i, c))
    B.all([(s['tool'], i, ''.join(c['txt'][:k])) for s, i, c in plans for k in range(len(c['txt']) + 1)])
    back = {}
    for s, i, c in plans:
        for k in range(len(c['txt']) + 1):
            chk.traces += 1
            t, base = ''.join(c['txt'][:k]), ''.join(c['txt'][:c['cuts'][k][s['holds']]])
            if B.hung and ((s['tool'], i, t) not in B.memo or (s['tool'], i, base) not in B.memo):
                continue
            rc, out, err = B.memo[s['tool'], i, t]
            w = None
            if isinstance(rc, str) or rc < 0 or rc > 125:
                w = 'it never ends' if rc == 'hang' else 'it dies of %s: %s' % (rc, err)
            elif rc != 0 and (c['cuts'][k]['all'] == k or not c['stream']):
                w = 'it fails (status %s) although nothing is open: %s' % (rc, err)
            elif c['stream'] and not out.startswith(B.stands(s['tool'], i, base)):
                w = 'it gives %r, although it gives %r for the part %r' % (out, B.stands(s['tool'], i, base), base)
            if w is None:
                try:
                    o = out.decode('utf-8')
                except UnicodeDecodeError:
                    w = 'what it gives is not text: %r' % out
            if w:
                if len(chk.viol) < 3:
                    chk.violation('%s: the input ends after %r: %s' % (B.name(s['tool'], i), t, w), {'stage': B.name(s['tool'], i), 'input': t})
                continue
            if s['out'] != 'none' and (c['cuts'][k]['all'] == k or not c['stream']):
                back.setdefault((s['out'] == 'chunk', o), (s, i, t))
    keys = sorted(back)
    ctl = [(False, 'a[b'), (False, '^a$ ^b'), (True, '^a{^b$}'), (False, 'a\\')]
    ok = U.read_back(chk, ctl + keys)
    if any(ok[:len(ctl)]):
        raise CheckError('a broken stream was not noticed')
    for key, g in zip(keys, ok[len(ctl):]):
        if not g and len(chk.viol) < 3:
            s, i, t = back[key]
            chk.violation('%s: for %r it gives %r, which is no stream' % (B.name(s['tool'], i), t, key[1]), {'stage': B.name(s['tool'], i), 'input': t})
    chk.extra.update(streams=len(short) + len(lng), runs=len(B.memo), configurations=sum(map(len, B.S.values())), texts_read_back=len(keys))
    for s, i, c in plans[:: max(1, len(plans) // 3)][:3]:
        chk.sample({'stage': B.name(s['tool'], i), 'stream': ''.join(c['txt'])})
